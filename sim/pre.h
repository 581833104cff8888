// Force-included before every translation unit: lets the installed mingw-w64 Windows headers be used by the native
// compiler (LP64, 2-byte wchar_t via -fshort-wchar, glibc's C library headers).
#pragma once
#define _SSIZE_T_DEFINED
#define _TIME_T_DEFINED
#define __cdecl
#define _cdecl
#define __stdcall
#define _stdcall
#define __fastcall
#define __int64 long long
#define __int32 int
#define __int16 short
#define __int8 char
#define __declspec(x)
#define _WINSOCKAPI_
#define _WINSOCK2API_
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#include <sys/select.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <wchar.h>
#ifdef __cplusplus
extern "C" {
#endif
int _wcsicmp(const wchar_t *, const wchar_t *);
#ifdef __cplusplus
}
#endif
