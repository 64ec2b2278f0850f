#pragma once
#include "Windows.h"
typedef void* BCRYPT_ALG_HANDLE;
#define BCRYPT_SUCCESS(s)                  (((NTSTATUS)(s)) >= 0)
#define BCRYPT_RNG_USE_ENTROPY_IN_BUFFER   1u
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG    2u
#define BCRYPT_RNG_ALGORITHM               L"RNG"
#define MS_PRIMITIVE_PROVIDER              L"Microsoft Primitive Provider"
#define STATUS_SUCCESS                     ((NTSTATUS)0)
#define STATUS_INVALID_HANDLE              ((NTSTATUS)0xC0000008)
#define STATUS_UNSUCCESSFUL                ((NTSTATUS)0xC0000001)
#define STATUS_INVALID_PARAMETER           ((NTSTATUS)0xC000000D)
NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE h, PUCHAR buf, ULONG n, ULONG flags);
NTSTATUS BCryptOpenAlgorithmProvider(BCRYPT_ALG_HANDLE* h, LPCWSTR alg, LPCWSTR impl, ULONG flags);
NTSTATUS BCryptCloseAlgorithmProvider(BCRYPT_ALG_HANDLE h, ULONG flags);
