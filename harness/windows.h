/* Stand-in for the Windows headers: just what a random source needs.  ULONG and DWORD have 32 bits and
   BOOLEAN is one byte, as on Windows. */
#ifndef VF_WINDOWS_H
#define VF_WINDOWS_H
#include <stdint.h>
#include <stddef.h>
#define WINAPI
#define APIENTRY
#define FAR
#define CALLBACK
#define TRUE 1
#define FALSE 0
typedef void VOID; typedef void *PVOID, *LPVOID, *HANDLE; typedef void *HMODULE, *HINSTANCE;
typedef unsigned char BYTE, BOOLEAN, UCHAR, *PBYTE, *LPBYTE; typedef int BOOL, INT; typedef uint32_t ULONG, DWORD, UINT, *PULONG, *LPDWORD, *PDWORD;
typedef uint16_t WORD, WCHAR; typedef int32_t LONG, HRESULT, NTSTATUS; typedef char CHAR; typedef const char *LPCSTR, *LPCTSTR, *PCSTR; typedef const WCHAR *LPCWSTR;
typedef intptr_t INT_PTR, LONG_PTR; typedef uintptr_t UINT_PTR, ULONG_PTR, DWORD_PTR, SIZE_T; typedef uint64_t ULONGLONG, DWORD64, ULONG64; typedef int64_t LONGLONG;
#define MAXDWORD 0xFFFFFFFFu
#define ULONG_MAX_32 0xFFFFFFFFu
typedef INT_PTR (WINAPI *FARPROC)();
HMODULE vw_load(const char *name); FARPROC vw_proc(HMODULE m, const char *name); BOOL vw_free(HMODULE m);
#define LoadLibrary vw_load
#define LoadLibraryA vw_load
#define LoadLibraryExA(n,f,x) vw_load(n)
#define LoadLibraryEx(n,f,x) vw_load(n)
#define GetModuleHandle vw_load
#define GetProcAddress vw_proc
#define FreeLibrary vw_free
#define ZeroMemory(p,n) memset(p,0,n)
#define SecureZeroMemory(p,n) memset(p,0,n)
#endif
