// FourQ double, see FourQ_api.h. GMP-backed; slow but exact.
#include <gmpxx.h>
#include "FourQ_api.h"
namespace {
typedef unsigned __int128 u128;
struct F { u128 v; };
const u128 P127 = (((u128)1) << 127) - 1;
inline u128 red(u128 a) { a = (a & P127) + (a >> 127); return a >= P127 ? a - P127 : a; }
inline F add(F a, F b) { return {red(a.v + b.v)}; }
inline F sub(F a, F b) { return {red(a.v + (P127 - b.v))}; }
inline F mul(F a, F b) {
  uint64_t a0 = a.v, a1 = a.v >> 64, b0 = b.v, b1 = b.v >> 64;
  u128 lo = (u128)a0 * b0, m1 = (u128)a0 * b1, m2 = (u128)a1 * b0, hi = (u128)a1 * b1;
  u128 mid = m1 + m2;  // < 2^128 because a1,b1 < 2^63
  u128 l = lo + (mid << 64);
  u128 h = hi + (mid >> 64) + (l < lo);
  // value = h*2^128 + l ; 2^127 = 1
  u128 r = red(l);
  u128 hh = (h << 1);  // h < 2^126
  return {red(r + red(hh))};
}
F fpow(F a, u128 e) { F r{1}; for (; e; e >>= 1) { if (e & 1) r = mul(r, a); a = mul(a, a); } return r; }
F finv(F a) { return fpow(a, P127 - 2); }
struct F2 { F a, b; };
inline F2 add(F2 x, F2 y) { return {add(x.a, y.a), add(x.b, y.b)}; }
inline F2 sub(F2 x, F2 y) { return {sub(x.a, y.a), sub(x.b, y.b)}; }
inline F2 mul(F2 x, F2 y) { return {sub(mul(x.a, y.a), mul(x.b, y.b)), add(mul(x.a, y.b), mul(x.b, y.a))}; }
F2 inv(F2 x) { F n = finv(add(mul(x.a, x.a), mul(x.b, x.b))); return {mul(x.a, n), mul(sub(F{0}, x.b), n)}; }
bool iszero(F2 x) { return x.a.v == 0 && x.b.v == 0; }
bool eq(F2 x, F2 y) { return x.a.v == y.a.v && x.b.v == y.b.v; }
bool fsqrt(F a, F* r) { *r = fpow(a, ((u128)1) << 125); return mul(*r, *r).v == a.v; }
bool sqrt2(F2 x, F2* r) {
  if (iszero(x)) { *r = x; return true; }
  F n, half = finv(F{2});
  if (!fsqrt(add(mul(x.a, x.a), mul(x.b, x.b)), &n)) return false;
  for (int s = 0; s < 2; ++s) {
    F t = mul(s ? sub(x.a, n) : add(x.a, n), half), c;
    if (fsqrt(t, &c)) {
      F2 y;
      if (c.v == 0) {
        F d;
        if (!fsqrt(sub(F{0}, x.a), &d)) continue;
        y = {F{0}, d};
      } else {
        y = {c, mul(x.b, finv(add(c, c)))};
      }
      if (eq(mul(y, y), x)) { *r = y; return true; }
    }
  }
  return false;
}
const char* DRE = "4205857648805777768770";
const char* DIM = "125317048443780598345676279555970305165";
const char* ORD = "73846995687063900142583536357581573884798075859800097461294096333596429543";
u128 dec(const char* s) { u128 r = 0; while (*s) r = r * 10 + (*s++ - '0'); return r; }
F2 D() { static F2 d{{dec(DRE)}, {dec(DIM)}}; return d; }
const F2 ONE{{1}, {0}}, ZERO{{0}, {0}};
struct Ext { F2 X, Y, Z, T; };
Ext eadd(const Ext& p, const Ext& q) {  // unified addition for a=-1
  F2 A = mul(sub(p.Y, p.X), sub(q.Y, q.X)), B = mul(add(p.Y, p.X), add(q.Y, q.X));
  F2 C = mul(mul(p.T, q.T), add(D(), D())), Dd = mul(p.Z, add(q.Z, q.Z));
  F2 E = sub(B, A), Ff = sub(Dd, C), G = add(Dd, C), H = add(B, A);
  return {mul(E, Ff), mul(G, H), mul(Ff, G), mul(E, H)};
}
Ext smul(Ext p, const mpz_class& k) {
  Ext r{ZERO, ONE, ONE, ZERO};
  for (long i = (long)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; --i) {
    r = eadd(r, r);
    if (mpz_tstbit(k.get_mpz_t(), i)) r = eadd(r, p);
  }
  return r;
}
bool oncurve(F2 x, F2 y) {
  F2 x2 = mul(x, x), y2 = mul(y, y);
  return eq(sub(y2, x2), add(ONE, mul(D(), mul(x2, y2))));
}
F2 ld(const f2elm_t e) { return {{red((u128)e[0][0] | ((u128)e[0][1] << 64))}, {red((u128)e[1][0] | ((u128)e[1][1] << 64))}}; }
void st(F2 v, f2elm_t e) { e[0][0] = v.a.v; e[0][1] = v.a.v >> 64; e[1][0] = v.b.v; e[1][1] = v.b.v >> 64; }
mpz_class rd(const digit_t* a) { mpz_class z; mpz_import(z.get_mpz_t(), 4, -1, 8, 0, 0, a); return z; }
void wr(const mpz_class& z, digit_t* o) { memset(o, 0, 32); mpz_export(o, nullptr, -1, 8, 0, 0, z.get_mpz_t()); }
const mpz_class& N() { static mpz_class n(ORD); return n; }
mpz_class R() { return (mpz_class(1) << 256) % N(); }
int sign(F2 x) { u128 v = x.a.v ? x.a.v : x.b.v; return (int)(v >> 126) & 1; }
F2 neg(F2 x) { return sub(ZERO, x); }
bool recover(F2 y, F2* x) {
  F2 y2 = mul(y, y);
  F2 den = add(mul(D(), y2), ONE);
  if (iszero(den)) return false;
  return sqrt2(mul(sub(y2, ONE), inv(den)), x);
}
}  // namespace
void mod1271(felm_t a) { u128 v = (u128)a[0] | ((u128)a[1] << 64); v = red(v); v = red(v); a[0] = v; a[1] = v >> 64; }
bool ecc_mul(point_t p, digit_t* k, point_t q, bool cc) {
  F2 x = ld(p->x), y = ld(p->y);
  if (!oncurve(x, y)) return false;
  Ext e{x, y, ONE, mul(x, y)};
  if (cc) e = smul(e, mpz_class(392));
  e = smul(e, rd(k));
  F2 z = inv(e.Z);
  st(mul(e.X, z), q->x);
  st(mul(e.Y, z), q->y);
  return true;
}
void encode(point_t p, unsigned char* out) {
  memcpy(out, p->y, 32);
  if (sign(ld(p->x))) out[31] |= 0x80;
}
ECCRYPTO_STATUS decode(const unsigned char* in, point_t p) {
  unsigned char b[32];
  memcpy(b, in, 32);
  int s = b[31] >> 7;
  b[31] &= 0x7f;
  memcpy(p->y, b, 32);
  F2 y = ld(p->y), x;
  if (!recover(y, &x)) return ECCRYPTO_ERROR;
  if (sign(x) != s) x = neg(x);
  st(x, p->x);
  st(y, p->y);
  return ECCRYPTO_SUCCESS;
}
ECCRYPTO_STATUS HashToCurve(f2elm_t r, point_t p) {
  F2 y = ld(r), x;
  for (;; y = add(y, ONE)) {
    if (!recover(y, &x)) continue;
    Ext e{x, y, ONE, mul(x, y)};
    e = smul(e, mpz_class(392));
    F2 z = inv(e.Z);
    F2 X = mul(e.X, z), Y = mul(e.Y, z);
    if (iszero(X)) continue;
    st(X, p->x);
    st(Y, p->y);
    return ECCRYPTO_SUCCESS;
  }
}
void to_Montgomery(const digit_t* a, digit_t* o) { wr(rd(a) * R() % N(), o); }
void from_Montgomery(const digit_t* a, digit_t* o) {
  mpz_class ri, r = R();
  mpz_invert(ri.get_mpz_t(), r.get_mpz_t(), N().get_mpz_t());
  wr(rd(a) * ri % N(), o);
}
void Montgomery_inversion_mod_order(const digit_t* a, digit_t* o) {
  // aR -> a^-1 R
  mpz_class i, v = rd(a), r = R();
  mpz_invert(i.get_mpz_t(), v.get_mpz_t(), N().get_mpz_t());
  wr(i * r % N() * r % N(), o);
}
void modulo_order(digit_t* a, digit_t* o) { wr(rd(a) % N(), o); }
