// Mixed-number addition: exact, and in normal form.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
// the result of adding whole parts with sum s and fractional parts with sum en / ed
template <bool FULL, class M> void check(M const& m, W s, W en, W ed)
{
  W w = m.whole(), n = m.fractional().num(), d = m.fractional().den();
  sv_out((long)m.whole()); out(m.fractional());
  sv_assert(d != 0, 1);
  sv_assert(wabs(n) < wabs(d), 2);
  bool pos = (n > 0 && d > 0) || (n < 0 && d < 0), neg = (n > 0 && d < 0) || (n < 0 && d > 0);
  sv_assert(!(w > 0 && neg) && !(w < 0 && pos), 3);
  if constexpr (FULL) sv_assert((w * d + n) * ed == (s * ed + en) * d, 4);
  else sv_assert(((w - s) * d + n) * ed == en * d, 4);
}
// fraction components: half the width for 32 bits, 2^24-1 for 64 bits (the check itself must not overflow 128 bits)
constexpr long NB = 3;
constexpr long H32 = 32767, H64 = 16777215;
template <class T, long B> T cmp_() { constexpr long b = B ? B : NB; return in<T>(rng<T>::sg ? -b : 0, b); }
template <class T, long B> T cden()
{
  T x = cmp_<T, B>();
  sv_assume(x != 0);
  return x;
}
// whole parts: everything whose sum fits when a whole number is added; else half the width, or 2^24-1 with the widest fraction components
template <class T, long B, bool W = false> T whole() { return cmp_<T, B == 0 ? 0 : sizeof(T) == 4 ? (W ? (1L << 30) - 1 : H32) : B == H64 && !W ? H64 : (1L << 61) - 1>(); }
template <class W1, class F1, class W2, class F2, class Ops, long B> void mm()
{
  W1 w = whole<W1, B>(); F1 n = cmp_<F1, B>(), d = cden<F1, B>();
  W2 v = whole<W2, B>(); F2 p = cmp_<F2, B>(), q = cden<F2, B>();
  auto l = any<W1, F1, Ops>(w, n, d);
  auto r = any<W2, F2, Ops>(v, p, q);
  auto s = l + r;
  static_assert(std::is_same_v<decltype(s), mixed_number<std::common_type_t<W1, W2>, std::common_type_t<F1, F2>, Ops>>);
  check<B != 0>(s, (W)w + v, (W)n * q + (W)p * d, (W)d * q);
  sv_done();
}
template <class W1, class F1, class R, class Ops, bool LEFT, long B> void mf()
{
  W1 w = whole<W1, B>(); F1 n = cmp_<F1, B>(), d = cden<F1, B>();
  R p = cmp_<R, B>(), q = cden<R, B>();
  auto m = any<W1, F1, Ops>(w, n, d);
  auto f = fr<Ops>(p, q);
  auto s = [&] { if constexpr (LEFT) return f + m; else return m + f; }();
  check<B != 0>(s, w, (W)n * q + (W)p * d, (W)d * q);
  sv_done();
}
template <class W1, class F1, class R, class Ops, bool LEFT, long B> void mi()
{
  W1 w = whole<W1, B, true>(); F1 n = cmp_<F1, B>(), d = cden<F1, B>();
  R p = whole<R, B, true>();
  auto m = any<W1, F1, Ops>(w, n, d);
  auto s = [&] { if constexpr (LEFT) return p + m; else return m + p; }();
  check<B != 0>(s, (W)w + p, n, d);
  sv_done();
}
#define MM(P, W1, F1, W2, F2, N, B) extern "C" void H_mm_##N##_##P() { mm<W1, F1, W2, F2, ops::P, B>(); }
#define MF1(P, W1, F1, R, N, B) extern "C" void H_mf_##N##_##P() { mf<W1, F1, R, ops::P, false, B>(); }
#define MF(P, W1, F1, R, N, B) MF1(P, W1, F1, R, N, B) FM1(P, W1, F1, R, N, B)
#define FM1(P, W1, F1, R, N, B) extern "C" void H_fm_##N##_##P() { mf<W1, F1, R, ops::P, true, B>(); }
#define MI(P, W1, F1, R, N, B) extern "C" void H_mi_##N##_##P() { mi<W1, F1, R, ops::P, false, B>(); } extern "C" void H_im_##N##_##P() { mi<W1, F1, R, ops::P, true, B>(); }
// the policy without reductions over the full bound
#define FULL(P, W1, F1, W2, F2, N, B) MM(P, W1, F1, W2, F2, N, B) MF(P, W1, F1, F2, N, B) MI(P, W1, F1, W2, N, B)
FULL(fast, int, int, int, int, i32, H32) FULL(fast, long, long, long, long, i64, H64) FULL(fast, unsigned, unsigned, unsigned, unsigned, u32, H32)
FULL(fast, int, int, long, long, il, H32) MI(fast, long, int, int, li, H32) FULL(fast, long, int, int, long, liil, H32)
// every policy (their reductions make the queries much harder): all components up to 3 in magnitude
#define SMALL(P, ...) MM(P, int, int, int, int, s32, 0) MF1(P, int, int, int, s32, 0) MI(P, int, int, int, s32, 0)
SV_POLICIES(SMALL, )
FM1(safe, int, int, int, s32, 0)
// fractions, whole numbers and mixed numbers with parts beyond the range of the narrower operand
template <int KIND, bool LEFT> void wider()
{
  constexpr long B = (1L << 34) - 1;
  int w = in<int>(-32767, 32767), n = in<int>(-127, 127), d = in<int>(-127, 127);
  sv_assume(d != 0);
  long p = in<long>(-B, B), q = in<long>(-B, B);
  sv_assume(q != 0);
  auto m = any<int, int, ops::fast>(w, n, d);
  auto o = [&] { if constexpr (KIND == 0) return fr<ops::fast>(p, q);
                 else return any<long, int, ops::fast>(p, n, d); }();
  auto s = [&] { if constexpr (LEFT) return o + m; else return m + o; }();
  if constexpr (KIND == 0) check<true>(s, w, (W)n * q + (W)p * d, (W)d * q);
  else check<true>(s, (W)w + p, 2 * (W)n, d);
  sv_done();
}
extern "C" void H_mf_wide() { wider<0, false>(); }
extern "C" void H_fm_wide() { wider<0, true>(); }
extern "C" void H_mm_wide() { wider<1, false>(); }
extern "C" void H_mm2_wide() { wider<1, true>(); }
// the policies that rescale or reduce, with parts of half the width over listed pairs of denominators
constexpr int DEN[][2] = {{2, 3}, {4, -6}, {-5, 5}, {1, -1}, {7, 32767}, {-12, 18}};
template <class Ops, int KIND, bool LEFT> void grid()
{
  int k = (int)sv_case(0, 5), d = DEN[k][0], q = DEN[k][1];
  int w = in<int>(-H32, H32), n = in<int>(-H32, H32), v = KIND == 0 ? in<int>(-H32, H32) : 0, p = in<int>(-H32, H32);
  auto m = any<int, int, Ops>(w, n, d);
  auto o = [&] { if constexpr (KIND == 0) return any<int, int, Ops>(v, p, q); else return fr<Ops>(p, q); }();
  auto s = [&] { if constexpr (LEFT) return o + m; else return m + o; }();
  check<true>(s, (W)w + v, (W)n * q + (W)p * d, (W)d * q);
  sv_done();
}
#define GRIDM(H, P) extern "C" void H##_mm_g32_##P() { grid<ops::P, 0, false>(); }
#define GRID(H, P) GRIDM(H, P) extern "C" void H##_mf_g32_##P() { grid<ops::P, 1, false>(); } extern "C" void H##_fm_g32_##P() { grid<ops::P, 1, true>(); }
GRID(H, safe) GRIDM(H, safe_reduced_o)
#ifdef SV_THOROUGH
GRID(T, safe_reduced_io) GRID(T, safe_reduced_i) GRID(T, fast_reduced_io)
#endif
