#include <stddef.h>
void pa_reset(void) {} size_t pa_live(void) { return 0; } size_t pa_live_bytes(void) { return 0; } void pa_fail_at(long n) {} void pa_fail_from(long n) {}
long pa_count(void) { return 0; } void pa_count_reset(void) {} int pa_fired(void) { return 0; } int pa_is_live(const void *p) { return 0; } size_t pa_frees(void) { return 0; }
void pa_describe_live(char *b, size_t n) { b[0] = 0; }
int pa_recycle; size_t pa_limit;
