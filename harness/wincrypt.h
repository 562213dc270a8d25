/* Stand-in for the Windows cryptographic service interface. */
#ifndef VF_WINCRYPT_H
#define VF_WINCRYPT_H
#include <windows.h>
typedef ULONG_PTR HCRYPTPROV;
#define PROV_RSA_FULL 1
#define PROV_RSA_AES 24
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define CRYPT_SILENT 0x40u
#define CRYPT_NEWKEYSET 8u
BOOL vw_acquire(HCRYPTPROV *p, const char *container, const char *provider, DWORD type, DWORD flags);
BOOL vw_cryptgen(HCRYPTPROV p, DWORD len, BYTE *out); BOOL vw_release(HCRYPTPROV p, DWORD flags);
#define CryptAcquireContext vw_acquire
#define CryptAcquireContextA vw_acquire
#define CryptGenRandom vw_cryptgen
#define CryptReleaseContext vw_release
#endif
