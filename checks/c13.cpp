// C13: MD5 and SHA-512
#include "pbt.hpp"
#include <memory>
#include <sys/mman.h>
#include "c13_ops.h"
#include "refhash.hpp"
static std::string gmsg() { return gbytes(sizenear(chance(1, 12) ? 6000 : 400, {55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 191, 192, 239, 240, 255, 256, 4096})); }
struct Stream { bool sha; std::string m; size_t pos = 0; std::unique_ptr<Buf> ctx, src; bool fin = false; int updates = 0; };
static void one(bool interleave) {
  size_t k = interleave ? 2 + draw(3) : 1; std::vector<Stream> v(k); for (auto &s : v) { s.sha = draw(1); s.m = gmsg(); s.ctx.reset(new Buf(s.sha ? s_sha_size() : s_md5_size(), (int)draw(255))); if (s.sha) sha512_init(s.ctx->p); else md5_init(s.ctx->p); note("%s of %s", s.sha ? "sha512" : "md5", show(s.m, 40).c_str()); }
  size_t left = k; bool multi = false;
  while (left) {
    size_t pick = draw(left - 1), idx = 0; for (;; idx++) if (!v[idx].fin && pick-- == 0) break;
    { Stream &t = v[idx]; size_t rem = t.m.size() - t.pos; if (!t.sha && chance(1, 8)) { Buf d(16); std::string before = t.ctx->str(); md5_end(t.ctx->p, d); CHECK(d.str() == ref::md5(t.m.data(), t.pos), "intermediate MD5 over %zu bytes is %s", t.pos, ref::hex(d.str()).c_str()); LABEL("intermediate md5_end"); }
      if (rem == 0 && (t.updates > 0 || chance(1, 2))) { t.fin = true; left--; } else { size_t n = chance(1, 8) ? 0 : t.sha ? (chance(1, 2) && rem > 128 ? 128 * (1 + draw(rem / 128 - 1)) : rem) : (chance(1, 3) ? rem : 1 + draw(rem ? rem - 1 : 0)); if (n > rem) n = rem; if (t.updates && n) multi = true; note("update %zu", n); t.src.reset(new Buf(t.m.data() + t.pos, n)); if (t.sha) sha512_update(t.ctx->p, t.src->u(), n); else md5_update(t.ctx->p, t.src->p, n); CHECK(t.src->str() == t.m.substr(t.pos, n), "input modified"); t.src.reset(); t.pos += n; t.updates++; } }
  }
  for (auto &s : v) if (s.sha) { unsigned char *r = sha512_end(s.ctx->p); std::string got((char *)r, 64), want = ref::sha512(s.m.data(), s.m.size()); CHECK(got == want, "SHA-512 of %zu bytes is %s, expected %s", s.m.size(), ref::hex(got).c_str(), ref::hex(want).c_str()); } else { Buf d(16); md5_end(s.ctx->p, d); std::string want = ref::md5(s.m.data(), s.m.size()); CHECK(d.str() == want, "MD5 of %zu bytes is %s, expected %s", s.m.size(), ref::hex(d.str()).c_str(), ref::hex(want).c_str()); Buf e(16); md5_end(s.ctx->p, e); CHECK(e.str() == want, "second md5_end differs"); }
  if (multi) { nontrivial(); LABEL("several non-empty updates"); }
}
static void single() { one(false); }
static void inter() { one(true); }
static void oneshot() { // every length around block boundaries, and md5str
  u64 i = case_index(); size_t n = i < 600 ? i : 600 + (i - 600) * 37; std::string m(n, 0); gfill(&m[0], n, g_seed * 1000003 + i); Buf b(m); Buf o(33); md5str(o, b.u(), n); std::string want = ref::hex(ref::md5(m.data(), n)); note("length %zu", n); nontrivial(); CHECK(want == o.p, "md5str of %zu bytes is %s, expected %s", n, o.p, want.c_str()); Buf c(s_sha_size()); sha512_init(c.p); sha512_update(c.p, b.u(), n); unsigned char *r = sha512_end(c.p); CHECK(std::string((char *)r, 64) == ref::sha512(m.data(), n), "SHA-512 of %zu bytes", n); CHECK(b.str() == m, "input modified"); CHECK(s_md5_hash_size() == 16 && s_sha_hash_size() == 64, "hash sizes");
}
static void huge() { // digests of n bytes (0x80, zeros..., 0x01), computed once with Python's hashlib
  static const struct { size_t n; int sha; int chunks; const char *want; } C[] = {{536871112, 0, 1, "0ce76a5fb167c4e2dece3c508656f202"}, {536871112, 1, 1, "fc6d790068ec0955d716fb8f4c915edcdc7549ab821447724ab9853c7af2486b76ce1acb84dcb10104e65f0f3823b3d87e68dad40211ed1218bfc181fb8769df"}, {536871112, 0, 7, "0ce76a5fb167c4e2dece3c508656f202"}, {4294967629, 0, 1, "452b2cda772f2e9f9b734a156060f599"},
    {2147483948, 0, 1, "38417dfb0110b9383318c000beff367e"}, {4294967629, 0, 5, "452b2cda772f2e9f9b734a156060f599"}, {536871112, 1, 3, "fc6d790068ec0955d716fb8f4c915edcdc7549ab821447724ab9853c7af2486b76ce1acb84dcb10104e65f0f3823b3d87e68dad40211ed1218bfc181fb8769df"}, {2147483948, 1, 1, "b106305ca8cb585138ea7af2f7ce1085e322be470b76a7881d8a1cbe03b34a2b4744c8dd598f3c575f2f7faab41eaea5bb00b979fe8db6fb0a983649b33b237f"}, {4294967629, 1, 1, "472c779bf11521ff1d2d85f4843956cc32e2afff47cacc63eb9ad68de20b00777e4ca85922f08c81953935ccfc7ea1659ecafb4a7bba0bc2eff9a55b85a243af"}, {4294967629, 1, 9, "472c779bf11521ff1d2d85f4843956cc32e2afff47cacc63eb9ad68de20b00777e4ca85922f08c81953935ccfc7ea1659ecafb4a7bba0bc2eff9a55b85a243af"}};
  auto &c = C[case_index()]; note("%s of %zu bytes in %d update(s)", c.sha ? "SHA-512" : "MD5", c.n, c.chunks); nontrivial(); unsigned char *p = (unsigned char *)mmap(0, c.n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return; p[0] = 0x80; p[c.n - 1] = 1;
  Buf ctx(c.sha ? s_sha_size() : s_md5_size()); if (c.sha) sha512_init(ctx.p); else md5_init(ctx.p); size_t pos = 0; for (int i = 0; i < c.chunks; i++) { size_t n = i + 1 == c.chunks ? c.n - pos : c.n / c.chunks; if (i + 1 < c.chunks) n -= n % (c.sha ? 128 : 1); if (c.sha) sha512_update(ctx.p, p + pos, n); else md5_update(ctx.p, p + pos, n); pos += n; }
  std::string got; if (c.sha) got.assign((char *)sha512_end(ctx.p), 64); else { got.resize(16); md5_end(ctx.p, &got[0]); } munmap(p, c.n); CHECK(ref::hex(got) == c.want, "%s of %zu bytes is %s, expected %s", c.sha ? "SHA-512" : "MD5", c.n, ref::hex(got).c_str(), c.want);
}
Check the_check = {"C13", "random messages with block-boundary-biased lengths split into random updates (SHA-512: whole blocks before the last data), up to 4 interleaved contexts in poisoned memory, compared with references written from the specifications; every length 0..599 and a lattice up to ~45000 in one call; 512 MiB to 4 GiB inputs against digests computed with another implementation; non-trivial: at least two non-empty updates (enumerated legs: every case)",
  {{"huge", huge, 7, 10, ENUM | SLOW}, {"oneshot", oneshot, 1800, 6000, ENUM | LEAK}, {"chunks", single, 150000, 4000000, FUZZ | LEAK}, {"interleaved", inter, 60000, 1500000, FUZZ | LEAK}, {"chunks-long", single, 1500, 20000, LEAK | LONGS}}};
