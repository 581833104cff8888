#pragma once
#include <stddef.h>
#include <sys/types.h>
#include <time.h>
typedef unsigned short wctype_w;
typedef int errno_t;
typedef long long __time64_t;
typedef int __time32_t;
struct threadlocaleinfostruct; struct threadmbcinfostruct;
typedef struct localeinfo_struct *_locale_t;
#ifndef _CRTIMP
#define _CRTIMP
#endif
