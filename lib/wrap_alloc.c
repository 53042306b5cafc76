/* allocation accounting and failure injection for everything linked with --wrap */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
typedef struct { void *p; size_t n; } ent;
size_t pa_limit = (size_t)3 << 30;
static ent *tab; static size_t cap, used /* incl. tombstones */, live, bytes, frees;
#define TOMB ((void *)1)
static long failat, failfrom, cnt; static int fired;
extern void pa_blowup(void);
static size_t hp(void *p) { uint64_t x = (uintptr_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 29; return x; }
static void put(void *p, size_t n);
static void grow(void) {
	ent *o = tab; size_t oc = cap, i;
	cap = oc ? (live * 4 > oc ? oc * 2 : oc) : 1024; tab = __real_calloc(cap, sizeof(ent)); used = 0; size_t l = live, b = bytes; live = bytes = 0;
	for (i = 0; i < oc; i++) if (o[i].p && o[i].p != TOMB) put(o[i].p, o[i].n);
	__real_free(o); (void)l; (void)b;
}
static void put(void *p, size_t n) {
	size_t i;
	if (!p) return;
	if ((used + 1) * 2 > cap) grow();
	for (i = hp(p) & (cap - 1); tab[i].p; i = (i + 1) & (cap - 1)) if (tab[i].p == TOMB) break;
	if (!tab[i].p) used++;
	tab[i].p = p; tab[i].n = n; live++; bytes += n;
	if (bytes > pa_limit) pa_blowup();
}
static ent *find(const void *p) {
	size_t i;
	if (!cap || !p) return 0;
	for (i = hp((void *)p) & (cap - 1); tab[i].p; i = (i + 1) & (cap - 1)) if (tab[i].p == p) return &tab[i];
	return 0;
}
static void del(void *p) { ent *e = find(p); if (e) { live--; bytes -= e->n; frees++; e->p = TOMB; } }
void pa_reset(void) { if (used) memset(tab, 0, cap * sizeof(ent)); used = live = bytes = frees = 0; failat = failfrom = 0; cnt = 0; fired = 0; }
size_t pa_live(void) { return live; }
size_t pa_live_bytes(void) { return bytes; }
size_t pa_frees(void) { return frees; }
void pa_fail_at(long n) { failat = n ? cnt + n : 0; fired = 0; }
void pa_fail_from(long n) { failfrom = n ? cnt + n : 0; fired = 0; }
long pa_count(void) { return cnt; }
void pa_count_reset(void) { cnt = 0; failat = failfrom = 0; }
int pa_fired(void) { return fired; }
int pa_is_live(const void *p) { return !!find(p); }
void pa_describe_live(char *buf, size_t n) {
	size_t i, k = 0, o = 0; buf[0] = 0;
	for (i = 0; i < cap && k < 8; i++) if (tab[i].p && tab[i].p != TOMB) { k++; o += snprintf(buf + o, o < n ? n - o : 0, "%s%zu bytes", k > 1 ? ", " : "", tab[i].n); if (o >= n) break; }
}
/* recycling: released blocks are handed out again for the next request of their size, across cases too (a plain
   allocator does that, AddressSanitizer's quarantine avoids it), so that stale references by address become visible;
   while waiting they are poisoned, so that uses after the release are still reported */
void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern void pa_doublefree(void);
int pa_recycle;
#define POOLN 48
static ent pool[POOLN]; static unsigned np;
static void *take(size_t n) {
	unsigned i;
	if (!pa_recycle) return 0;
	for (i = np; i-- > 0;) if (pool[i].n == n) { void *p = pool[i].p; memmove(pool + i, pool + i + 1, (--np - i) * sizeof *pool); if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n); memset(p, 190, n); return p; }
	return 0;
}
static int keep(void *p, size_t n) {
	if (!pa_recycle || !n || n > 65536) return 0;
	if (np == POOLN) { if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(pool[0].p, pool[0].n); __real_free(pool[0].p); memmove(pool, pool + 1, --np * sizeof *pool); }
	memset(p, 203, n); if (__asan_poison_memory_region) __asan_poison_memory_region(p, n);
	pool[np].p = p; pool[np++].n = n; return 1;
}
static int inject(void) { cnt++; if ((failat && cnt == failat) || (failfrom && cnt >= failfrom)) { fired++; errno = ENOMEM; return 1; } return 0; }
static void *get(size_t n) { void *p = take(n); if (!p) p = __real_malloc(n); put(p, n); return p; }
void *__wrap_malloc(size_t n) { if (inject()) return 0; return get(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p; if (inject()) return 0; if (a && b <= 65536 / a && (p = take(a * b))) memset(p, 0, a * b); else p = __real_calloc(a, b); put(p, a * b); return p; }
void __wrap_free(void *p) {
	ent *e = find(p); unsigned i;
	if (e) { size_t n = e->n; del(p); if (keep(p, n)) return; }
	else if (p) for (i = 0; i < np; i++) if (pool[i].p == p) { pa_doublefree(); return; }
	__real_free(p);
}
void *__wrap_realloc(void *o, size_t n) {
	void *p; ent *e; if (inject()) return 0;
	if (pa_recycle && n && (!o || (e = find(o)))) { /* always moves */
		if (!(p = get(n))) return 0;
		if (o) { e = find(o); memcpy(p, o, e->n < n ? e->n : n); __wrap_free(o); }
		return p;
	}
	p = __real_realloc(o, n);
	if (p) { del(o);  put(p, n); } else if (!n) del(o);
	return p;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
