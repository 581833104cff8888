// Stand-in for Cygwin's: a recent version of its API.
#pragma once
#define CYGWIN_VERSION_API_MAJOR 0
#define CYGWIN_VERSION_API_MINOR 340
#define CYGWIN_VERSION_CYGWIN_CONV 181
