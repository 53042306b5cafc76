#ifdef __cplusplus
extern "C" {
#endif
size_t s_ba_size(size_t n); size_t s_ba_size_expr(size_t n); int s_ba_get(unsigned char *p, size_t i); int s_ba_get_expr(unsigned char *p, size_t i); int s_ba_getsw(unsigned char *p, size_t i); int s_ba_getsw_expr(unsigned char *p, size_t i);
void s_ba_true(unsigned char *p, size_t i); void s_ba_false(unsigned char *p, size_t i); void s_ba_set(unsigned char *p, size_t i, int c); unsigned s_bytem(unsigned v); unsigned s_bytel(unsigned v);
uint16_t s_swap16(uint16_t x); uint32_t s_swap32(uint32_t x); uint32_t s_swap32i(int32_t x); uint64_t s_swap64(uint64_t x); uint32_t s_le32(uint32_t x); uint16_t s_le16(uint16_t x); int s_is_le(void);
int s_sw_uc(char); int s_sw_lc(char); int s_sw_letters(char); int s_sw_numbers(char); int s_sw_alpha(char); int s_sw_math(char); int s_sw_nac(char); int s_sw_nash(char); int s_sw_na(char); int s_sw_print(char); int s_sw_cprint(char); int s_sw_shprint(char);
int s_ba_get_ty(unsigned char *p, size_t i, int t); void s_ba_put_ty(unsigned char *p, size_t i, int t, int v); size_t s_ba_size_ty(size_t n, int t); int s_ba_getsw_ty(unsigned char *p, size_t i, int t);
long long s_min(long long a, long long b); long long s_max(long long a, long long b);
#ifdef __cplusplus
}
#endif
