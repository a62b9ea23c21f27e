// Accepted decimal and hexadecimal literals convert to exactly the rational number they denote.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
constexpr W wpow(int b, int e) { W r = 1; while (e-- > 0) r *= b; return r; }
struct text {
  char buf[64]; int n = 0;
  W value = 0;
  void put(char c) { buf[n++] = c; }
  // a run of digits, with a separator after every SEP-th one (0: none)
  template <bool HEX> void digits(int count, int sep, int style)
  {
    for (int i = 0; i < count; ++i) {
      if (sep && i && i % sep == 0) put('\'');
      int d = (int)sv_range(0, HEX ? 15 : 9);
      value = value * (HEX ? 16 : 10) + d;
      if constexpr (HEX) put((char)(d < 10 ? '0' + d : (style ? 'A' : 'a') + d - 10));
      else put((char)('0' + d));
    }
  }
};
// WD digits before and FD digits after the radix point; EXP: -1 no exponent, otherwise the largest exponent magnitude
// LIT: through the literal operator
template <class R, class Ops, bool HEX, int WD, int FD, int EXP, bool LIT = false> void lit()
{
  constexpr W max = std::numeric_limits<R>::max();
  constexpr int base = HEX ? 16 : 10, ebase = HEX ? 2 : 10;
  long style = sv_case(0, EXP < 0 ? 1 : 2);     // 1: separators, upper-case letters; 2: other separators, no radix point if possible
  long e = EXP < 0 ? 0 : sv_case(-EXP, EXP);
  text t;
  if (HEX) { t.put('0'); t.put(style ? 'X' : 'x'); }
  t.digits<HEX>(WD, style == 1 ? 1 : style == 2 ? 2 : 0, style == 1);
  if (FD || style != 2 || EXP < 0) t.put('.');
  t.digits<HEX>(FD, style == 1 ? 2 : style == 2 ? 1 : 0, style == 1);
  if (EXP >= 0) {
    t.put(HEX ? (style ? 'P' : 'p') : (style ? 'E' : 'e'));
    long m = e < 0 ? -e : e;
    if (e < 0) t.put('-'); else if (style == 1) t.put('+');
    if (style == 2) { t.put('0'); t.put('\''); }
    if (m >= 10) { t.put((char)('0' + m / 10)); if (style == 1) t.put('\''); }
    t.put((char)('0' + m % 10));
  }
  W n = t.value, d = wpow(base, FD);
  if (e > 0) { W p = wpow(ebase, e); if (p > max) { sv_done(); return; } n *= p; }
  if (e < 0) { W p = wpow(ebase, -e); d *= p; }
  if (d > max) { sv_done(); return; }
  sv_assume(n <= max);
  auto r = [&] {
    if constexpr (LIT) { t.put(0); return literals::fraction_literals::operator""_dec(t.buf); }
    else return floating_point_string_to_fraction<R, Ops>(std::string_view(t.buf, t.n));
  }();
  out(r);
  sv_assert(r.den() != 0, 1);
  sv_assert((W)r.num() * d == n * (W)r.den(), 2);
  sv_done();
}
#define LITERAL(X, XN, WD, FD, EX, EN) extern "C" void H_##XN##_lit_##WD##_##FD##EN() { lit<long, ops::defaults, X, WD, FD, EX, true>(); }
LITERAL(false, dec, 2, 3, -1, ) LITERAL(false, dec, 1, 1, 4, _e) LITERAL(true, hex, 2, 1, 8, _e)
#define L(R, RN, P, X, XN, WD, FD, EX, EN) extern "C" void H_##XN##_##RN##_##P##_##WD##_##FD##EN() { lit<R, ops::P, X, WD, FD, EX>(); }
#define DEC32(P) L(int, i32, P, false, dec, 1, 0, -1, ) L(int, i32, P, false, dec, 0, 1, -1, ) L(int, i32, P, false, dec, 3, 2, -1, ) \
  L(int, i32, P, false, dec, 10, 0, -1, ) L(int, i32, P, false, dec, 1, 8, -1, ) L(int, i32, P, false, dec, 0, 9, -1, )
#define DEC32E(P) L(int, i32, P, false, dec, 1, 0, 9, _e) L(int, i32, P, false, dec, 2, 1, 9, _e) L(int, i32, P, false, dec, 0, 2, 9, _e) L(int, i32, P, false, dec, 3, 3, 6, _e)
#define DEC64(P) L(long, i64, P, false, dec, 19, 0, -1, ) L(long, i64, P, false, dec, 9, 9, -1, ) L(long, i64, P, false, dec, 0, 18, -1, )
#define DEC64E(P) L(long, i64, P, false, dec, 1, 1, 18, _e) L(long, i64, P, false, dec, 5, 5, 13, _e) L(long, i64, P, false, dec, 2, 0, 18, _e)
#define HEX32(P) L(int, i32, P, true, hex, 1, 0, 30, _e) L(int, i32, P, true, hex, 0, 1, 30, _e) L(int, i32, P, true, hex, 2, 1, 26, _e) L(int, i32, P, true, hex, 8, 0, 2, _e) L(int, i32, P, true, hex, 1, 6, 6, _e)
#define HEX64(P) L(long, i64, P, true, hex, 1, 1, 24, _e) L(long, i64, P, true, hex, 16, 0, 2, _e) L(long, i64, P, true, hex, 1, 14, 6, _e)
DEC32(fast) DEC32(safe_reduced_io) DEC64(safe_reduced_io) HEX32(fast) HEX32(safe_reduced_io) HEX64(safe_reduced_io)
DEC32E(fast) DEC64E(fast)
// the default policy with exponents: a few shapes here, all of them in the thorough run
L(int, i32, safe_reduced_io, false, dec, 1, 0, 9, _e) L(int, i32, safe_reduced_io, false, dec, 2, 1, 4, _e) L(long, i64, safe_reduced_io, false, dec, 2, 0, 9, _e)
#ifdef SV_THOROUGH
#undef L
#define L(R, RN, P, X, XN, WD, FD, EX, EN) extern "C" void T_##XN##_##RN##_##P##_##WD##_##FD##EN() { lit<R, ops::P, X, WD, FD, EX>(); }
DEC32E(safe_reduced_io) DEC64E(safe_reduced_io) DEC32(safe) DEC32E(safe_reduced_o) HEX32(safe) HEX32(fast_reduced_i)
L(long, i64, safe_reduced_io, true, hex, 2, 1, 58, _e) L(long, i64, safe_reduced_io, true, hex, 4, 4, 46, _e) L(long, i64, fast, true, hex, 3, 3, 50, _e)
#endif
