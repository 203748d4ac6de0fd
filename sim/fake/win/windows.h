#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
typedef int32_t NTSTATUS; typedef uint32_t ULONG, DWORD; typedef int BOOL; typedef uint8_t BYTE, UCHAR; typedef uint64_t HCRYPTPROV; typedef void* BCRYPT_ALG_HANDLE; typedef uint8_t* PUCHAR;
#define FALSE 0
#define TRUE 1
#define NT_SUCCESS(s) (((NTSTATUS)(s))>=0)
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
#define STATUS_SUCCESS 0
#define WINAPI
#define MAXDWORD 0xFFFFFFFFu
#define ULONG_MAX_ 0xFFFFFFFFu
int64_t sim_BCryptGenRandom(void*,uint8_t*,uint32_t,uint32_t); int sim_CryptAcquireContext(uint64_t*,uint32_t); int sim_CryptGenRandom(uint64_t,uint32_t,uint8_t*); int sim_CryptReleaseContext(uint64_t);
static inline NTSTATUS BCryptGenRandom(BCRYPT_ALG_HANDLE h,void*b,ULONG n,ULONG f){ return (NTSTATUS)sim_BCryptGenRandom(h,(uint8_t*)b,n,f); }
static inline BOOL CryptAcquireContextA(HCRYPTPROV*h,const void*a,const void*b,DWORD t,DWORD f){ return sim_CryptAcquireContext(h,f); }
#define CryptAcquireContext CryptAcquireContextA
#define CryptAcquireContextW CryptAcquireContextA
static inline BOOL CryptGenRandom(HCRYPTPROV h,DWORD n,BYTE*b){ return sim_CryptGenRandom(h,n,b); }
static inline BOOL CryptReleaseContext(HCRYPTPROV h,DWORD f){ return sim_CryptReleaseContext(h); }
