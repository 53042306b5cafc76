#include <stdint.h>
#include <stddef.h>
#include "bitarray.h"
#include "endianness.h"
#include "macros.h"
#include "strswitch.h"
#include "c09_ops.h"
size_t s_ba_size(size_t n) { return BA_SIZE_REQUIRED(n); }
size_t s_ba_size_expr(size_t n) { return BA_SIZE_REQUIRED(n / 2 + (n - n / 2)); }
int s_ba_get(unsigned char *p, size_t i) { return BA_GET(p, i); }
int s_ba_get_expr(unsigned char *p, size_t i) { return BA_GET(p + 1 - 1, i / 2 + (i - i / 2)); }
int s_ba_getsw(unsigned char *p, size_t i) { return BA_GET_SWAPPED(p, i); }
int s_ba_getsw_expr(unsigned char *p, size_t i) { return BA_GET_SWAPPED(p + 0, i / 2 + (i - i / 2)); }
void s_ba_true(unsigned char *p, size_t i) { BA_SET_TRUE(p, i); }
void s_ba_false(unsigned char *p, size_t i) { BA_SET_FALSE(p, i); }
void s_ba_set(unsigned char *p, size_t i, int c) { if (i % 3) BA_SET(p, i, c); else BA_SET(p + 0, i / 2 + (i - i / 2), c & 0xff || c & 0xff00 || c); }
unsigned s_bytem(unsigned v) { return BYTEM(((v >> 7) & 1), ((v >> 6) & 1), ((v >> 5) & 1), ((v >> 4) & 1), ((v >> 3) & 1), ((v >> 2) & 1), ((v >> 1) & 1), (v & 1)); }
unsigned s_bytel(unsigned v) { return BYTEL((v & 1), ((v >> 1) & 1), ((v >> 2) & 1), ((v >> 3) & 1), ((v >> 4) & 1), ((v >> 5) & 1), ((v >> 6) & 1), ((v >> 7) & 1)); }
uint16_t s_swap16(uint16_t x) { return byteswap16(x); }
uint32_t s_swap32(uint32_t x) { return byteswap32(x); }
uint32_t s_swap32i(int32_t x) { return byteswap32(x); }
uint64_t s_swap64(uint64_t x) { return byteswap64(x); }
uint32_t s_le32(uint32_t x) { return le32(x); }
uint16_t s_le16(uint16_t x) { return le16(x); }
int s_is_le(void) {
#ifdef IS_LITTLE_ENDIAN
	return 1;
#else
	return 0;
#endif
}
#define SW(name, set) int name(char c) { switch (c) { case set: return 1; default: return 0; } }
SW(s_sw_uc, STRSWITCH_LETTERS_UC) SW(s_sw_lc, STRSWITCH_LETTERS_LC) SW(s_sw_letters, STRSWITCH_LETTERS) SW(s_sw_numbers, STRSWITCH_NUMBERS) SW(s_sw_alpha, STRSWITCH_ALPHA) SW(s_sw_math, STRSWITCH_MATH_OPS)
SW(s_sw_nac, STRSWITCH_NON_ALPHA_C) SW(s_sw_nash, STRSWITCH_NON_ALPHA_SH) SW(s_sw_na, STRSWITCH_NON_ALPHA) SW(s_sw_print, STRSWITCH_PRINTABLE) SW(s_sw_cprint, STRSWITCH_C_PRINTABLE) SW(s_sw_shprint, STRSWITCH_SH_PRINTABLE)
long long s_min(long long a, long long b) { return MIN(a, b); }
long long s_max(long long a, long long b) { return MAX(a, b); }
/* the macros with other index types: 0 int, 1 unsigned, 2 long, 3 uint64_t, 4 short, 5 unsigned char; and with a char array of another type */
#define TY(M, R) switch (t) { case 0: { int k = (int)i; R M(p, k); break; } case 1: { unsigned k = (unsigned)i; R M(p, k); break; } case 2: { long k = (long)i; R M(p, k); break; } case 3: { uint64_t k = i; R M(p, k); break; } case 4: { short k = (short)i; R M(p, k); break; } default: { unsigned char k = (unsigned char)i; R M(p, k); break; } }
#define PUT(p, k) BA_SET(p, k, v)
#define PUT2(p, k) if (v) BA_SET_TRUE(p, k); else BA_SET_FALSE(p, k)
#define SZ(p, k) BA_SIZE_REQUIRED(k)
int s_ba_get_ty(unsigned char *p, size_t i, int t) { int r = 0; TY(BA_GET, r =) return r; }
int s_ba_getsw_ty(unsigned char *p, size_t i, int t) { int r = 0; TY(BA_GET_SWAPPED, r =) return r; }
void s_ba_put_ty(unsigned char *p, size_t i, int t, int v) { if (v & 2) { v &= 1; TY(PUT2, ) } else { v &= 1; TY(PUT, ) } }
size_t s_ba_size_ty(size_t i, int t) { size_t r = 0; TY(SZ, r = (size_t)) return r; }
