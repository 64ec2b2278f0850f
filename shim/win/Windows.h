// Stand-in for the Windows SDK: just the types and names a random adapter may
// use, with Windows' widths (ULONG and DWORD are 32 bits).
#pragma once
#include <climits>
#include <cstddef>
#include <cstdint>
#undef ULONG_MAX
#define ULONG_MAX 0xffffffffu
#define MAXDWORD  0xffffffffu
#define MAXULONG  0xffffffffu
#define WINAPI
#define CALLBACK
#define VOID void
#ifndef FALSE
#define FALSE 0
#define TRUE  1
#endif
typedef int            BOOL;
typedef uint8_t        BYTE, UCHAR, BOOLEAN;
typedef uint16_t       WORD, USHORT;
typedef uint32_t       DWORD, ULONG, UINT;
typedef int32_t        LONG, NTSTATUS, HRESULT, INT;
typedef uint64_t       ULONGLONG, DWORD64, ULONG64;
typedef int64_t        LONGLONG;
typedef uintptr_t      ULONG_PTR, DWORD_PTR, UINT_PTR;
typedef size_t         SIZE_T;
typedef void *         PVOID, *LPVOID, *HANDLE, *HMODULE;
typedef UCHAR*         PUCHAR;
typedef BYTE *         PBYTE, *LPBYTE;
typedef DWORD *        PDWORD, *LPDWORD;
typedef ULONG*         PULONG;
typedef const void*    LPCVOID;
typedef char           CHAR;
typedef char *         LPSTR;
typedef const char*    LPCSTR;
typedef const wchar_t* LPCWSTR;
typedef wchar_t        WCHAR;
#define NT_SUCCESS(s) (((NTSTATUS)(s)) >= 0)
#define SUCCEEDED(h)  (((HRESULT)(h)) >= 0)
#define FAILED(h)     (((HRESULT)(h)) < 0)
static inline DWORD GetLastError() { return 0x80090020u; }
static inline void SetLastError(DWORD) {}
