/* the PSP build of normalizepath_cstr (drive name + ':' + unix path) */
#define PSPLIKE_PATH
#define normalizepath_cstr psp_normalizepath_cstr
#include "../src/filelib/normalizepath_cstr.c"
