// Stand-in for Cygwin's (implemented in simunix.cc).
#pragma once
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { CCP_POSIX_TO_WIN_A = 0, CCP_POSIX_TO_WIN_W, CCP_WIN_A_TO_POSIX, CCP_WIN_W_TO_POSIX, CCP_ABSOLUTE = 0, CCP_RELATIVE = 0x100 };
typedef enum { CW_SYNC_WINENV = 35 } cygwin_getinfo_types;
ssize_t cygwin_conv_path(unsigned what, const void *from, void *to, size_t size);
int cygwin_conv_to_win32_path(const char *, char *);
unsigned long cygwin_internal(cygwin_getinfo_types, ...);
#ifdef __cplusplus
}
#endif
