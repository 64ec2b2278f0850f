#pragma once
#include "Windows.h"
typedef ULONG_PTR HCRYPTPROV;
#define PROV_RSA_FULL         1u
#define PROV_RSA_AES          24u
#define CRYPT_VERIFYCONTEXT   0xF0000000u
#define CRYPT_NEWKEYSET       8u
#define CRYPT_MACHINE_KEYSET  0x20u
#define CRYPT_SILENT          0x40u
BOOL CryptAcquireContextA(HCRYPTPROV* h, LPCSTR container, LPCSTR provider, DWORD type, DWORD flags);
BOOL CryptAcquireContextW(HCRYPTPROV* h, LPCWSTR container, LPCWSTR provider, DWORD type, DWORD flags);
#define CryptAcquireContext CryptAcquireContextA
BOOL CryptReleaseContext(HCRYPTPROV h, DWORD flags);
BOOL CryptGenRandom(HCRYPTPROV h, DWORD n, BYTE* buf);
