// Operands of different representations, conversions, compound assignment.
#include "sv.hpp"
#include <limits>
using namespace sv;
using namespace ieme;
// components: narrow ones up to 2^15-1, wide ones up to 2^40-1 (beyond the narrow range; every intermediate product fits)
template <class T> T comp() { constexpr long b = sizeof(T) == 4 ? 32767 : (1L << 40) - 1; return in<T>(rng<T>::sg ? -b : 0, b); }
template <class T> T cden() { T x = comp<T>(); sv_assume(x != 0); return x; }
struct rat { W n, d; };                                     // d == 0: undefined
template <int OP> rat exact(W a, W b, W c, W d)
{
  if constexpr (OP == 0) return {a * d + c * b, b * d};
  else if constexpr (OP == 1) return {a * d - c * b, b * d};
  else if constexpr (OP == 2) return {a * c, b * d};
  else if constexpr (OP == 3) return {a * d, b * c};
  else return {(a * d) % (c * b), b * d};
}
template <int OP, class X, class Y> auto apply(X const& x, Y const& y)
{
  if constexpr (OP == 0) return x + y; else if constexpr (OP == 1) return x - y; else if constexpr (OP == 2) return x * y;
  else if constexpr (OP == 3) return x / y; else return x % y;
}
template <int OP, class X, class Y> X& applyeq(X& x, Y const& y)
{
  if constexpr (OP == 0) return x += y; else if constexpr (OP == 1) return x -= y; else if constexpr (OP == 2) return x *= y;
  else if constexpr (OP == 3) return x /= y; else return x %= y;
}
// x has the value of the binary operation, which itself is exact (decided here for policy fast, in C01-C03 for all)
template <int OP, class X, class E> void same(X const& x, E const& e, W a, W b, W c, W d)
{
  sv_assert(x.den() != 0, 3);
  sv_assert((x.num() == e.num() && x.den() == e.den()) || (W)x.num() * e.den() == (W)e.num() * x.den(), 4);
  if constexpr (std::is_same_v<typename X::ops_type, ops::fast>) {
    rat m = exact<OP>(a, b, c, d);
    sv_assert((W)x.num() * m.d == m.n * (W)x.den(), 5);
  }
}
template <int OP, class L, class R, class Ops, bool LF, bool RF> void bin()
{
  L a = comp<L>(), b = LF ? cden<L>() : L(1);
  R c = comp<R>(), d = RF ? cden<R>() : R(1);
  auto x = operand<LF, L, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  if constexpr (OP == 4) sv_assume(c != 0);
  auto r = apply<OP>(x, y);
  using C = std::common_type_t<L, R>;
  static_assert(std::is_same_v<decltype(r), fraction<C, Ops>>);
  out(r);
  if (OP == 3 && c == 0) sv_assert(r.den() == 0, 1);
  else if constexpr (std::is_same_v<Ops, ops::fast>) {
    rat e = exact<OP>(a, b, c, d);
    sv_assert(r.den() != 0, 2);
    sv_assert((W)r.num() * e.d == e.n * (W)r.den(), 3);
  } else {
    // the same as both operands in the common representation (C01-C03 decide that this is exact)
    auto e = apply<OP>(operand<LF, C, Ops>(a, b), operand<RF, C, Ops>(c, d));
    sv_assert(r.den() != 0, 2);
    sv_assert((W)r.num() * e.den() == (W)e.num() * r.den(), 3);
  }
  sv_done();
}
template <class L, class R, class Ops, bool LF, bool RF> void cmp()
{
  L a = comp<L>(), b = LF ? cden<L>() : L(1);
  R c = comp<R>(), d = RF ? cden<R>() : R(1);
  auto x = operand<LF, L, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  W l = (W)a * d, r = (W)c * b;
  if ((b < 0) != (d < 0)) { l = -l; r = -r; }
  sv_assert((x == y) == (l == r), 1); sv_assert((x != y) == (l != r), 2);
  sv_assert((x < y) == (l < r), 3); sv_assert((x <= y) == (l <= r), 4);
  sv_assert((x > y) == (l > r), 5); sv_assert((x >= y) == (l >= r), 6);
  sv_out((x < y) + 2 * (x == y));
  sv_done();
}
// left op= right, where the binary result fits the left representation
template <int OP, class L, class R, class Ops, bool RF> void comp_assign()
{
  L a = comp<L>(), b = cden<L>();
  R c = comp<R>(), d = RF ? cden<R>() : R(1);
  auto x = fr<Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  if constexpr (OP == 4) sv_assume(c != 0);
  if constexpr (sizeof(L) < sizeof(R)) {
    auto r = apply<OP>(x, y);
    constexpr long m = std::numeric_limits<L>::max();
    sv_assume(r.num() >= -m && r.num() <= m && r.den() >= -m && r.den() <= m);
  }
  auto e = apply<OP>(x, y);
  auto z = &applyeq<OP>(x, y);
  sv_assert(z == &x, 1);
  out(x);
  if (OP == 3 && c == 0) sv_assert(x.den() == 0, 2);
  else same<OP>(x, e, a, b, c, d);
  sv_done();
}
// the right operand is the left one, or one of its components
template <int OP, class L, class Ops, int WHICH> void alias()
{
  L a = num<L>(), b = den<L>();
  auto x = fr<Ops>(a, b);
  if constexpr (OP == 4 && WHICH != 2) sv_assume(a != 0);
  auto e = [&] { if constexpr (WHICH == 0) return apply<OP>(x, fr<Ops>(a, b)); else return apply<OP>(x, WHICH == 1 ? a : b); }();
  auto z = WHICH == 0 ? &applyeq<OP>(x, x) : WHICH == 1 ? &applyeq<OP>(x, x.num()) : &applyeq<OP>(x, x.den());
  sv_assert(z == &x, 1);
  out(x);
  W c = WHICH == 2 ? b : a, d = WHICH == 0 ? b : 1;
  if (OP == 3 && c == 0) sv_assert(x.den() == 0, 2);
  else same<OP>(x, e, a, b, c, d);
  sv_done();
}
// widening and policy conversion keep both components, undefined fractions and the most negative value included
template <class T> T anyv() { return rng<T>::sg ? in<T>(sizeof(T) == 4 ? -2147483648L : -9223372036854775807L - 1, rng<T>::full) : in<T>(0, rng<T>::full); }
template <class F, class T, class O1, class O2> void conv()
{
  F n = anyv<F>(), d = anyv<F>();
  auto f = fr<O1>(n, d);
  fraction<T, O2> g(f);
  sv_assert(g.num() == (T)n && g.den() == (T)d && (W)g.num() == (W)n && (W)g.den() == (W)d, 1);
  fraction<T, O2> h;
  sv_assert(h.num() == 0 && h.den() == 1, 2);
  if constexpr (std::is_same_v<O1, O2>) { fraction<T, O2> k = f; h = f; sv_assert(k.num() == g.num() && k.den() == g.den() && h.num() == g.num() && h.den() == g.den(), 3); }
  fraction<T, O2> u(raw_fraction<F>(n, d));
  sv_assert(u.num() == (T)n && u.den() == (T)d && u.raw().numerator == (T)n && u.raw().denominator == (T)d, 4);
  fraction<F, O1> v(n);
  sv_assert(v.num() == n && v.den() == 1, 5);
  v.num() = d; v.den() = n;
  sv_assert(v.numerator() == d && v.denominator() == n, 6);
  v.numerator() = n; v.denominator() = d;
  sv_assert(v.num() == n && v.den() == d, 7);
  out(g);
  sv_done();
}
template <class T, class Ops, long N, long D> void ratio1(int id)
{
  using Q = std::ratio<N, D>;
  fraction<T, Ops> f = Q();
  sv_assert((W)f.num() == Q::num && (W)f.den() == Q::den && (W)f.num() * D == (W)N * f.den(), id);
}
template <class T, class Ops> void ratios()
{
  ratio1<T, Ops, 0, 1>(1); ratio1<T, Ops, 3, 4>(2); ratio1<T, Ops, -7, 2>(3); ratio1<T, Ops, 6, -8>(4); ratio1<T, Ops, 1000000000, 1>(5);
  ratio1<T, Ops, 1, 1000000>(6); ratio1<T, Ops, 86400, 7>(7); ratio1<T, Ops, -2147483647, 2147483646>(8); ratio1<T, Ops, 10, 4>(9);
  if constexpr (sizeof(T) == 8) { ratio1<T, Ops, INT64_MAX, 2>(10); ratio1<T, Ops, -INT64_MAX, INT64_MAX - 1>(11); ratio1<T, Ops, 1, 1000000000000000000L>(12); }
  sv_done();
}
#define BIN1(OP, ON, P) \
  extern "C" void H_ff_##ON##_il_##P() { bin<OP, int, long, ops::P, true, true>(); } \
  extern "C" void H_ff_##ON##_li_##P() { bin<OP, long, int, ops::P, true, true>(); } \
  extern "C" void H_fi_##ON##_il_##P() { bin<OP, int, long, ops::P, true, false>(); } \
  extern "C" void H_fi_##ON##_li_##P() { bin<OP, long, int, ops::P, true, false>(); } \
  extern "C" void H_if_##ON##_il_##P() { bin<OP, int, long, ops::P, false, true>(); } \
  extern "C" void H_if_##ON##_li_##P() { bin<OP, long, int, ops::P, false, true>(); }
#define ASG1(OP, ON, P) \
  extern "C" void H_af_##ON##_ii_##P() { comp_assign<OP, int, int, ops::P, true>(); } \
  extern "C" void H_ai_##ON##_ii_##P() { comp_assign<OP, int, int, ops::P, false>(); } \
  extern "C" void H_af_##ON##_il_##P() { comp_assign<OP, int, long, ops::P, true>(); } \
  extern "C" void H_ai_##ON##_il_##P() { comp_assign<OP, int, long, ops::P, false>(); } \
  extern "C" void H_af_##ON##_li_##P() { comp_assign<OP, long, int, ops::P, true>(); } \
  extern "C" void H_ai_##ON##_li_##P() { comp_assign<OP, long, int, ops::P, false>(); }
#define ALI1(OP, ON, P) \
  extern "C" void H_self_##ON##_##P() { alias<OP, int, ops::P, 0>(); } \
  extern "C" void H_num_##ON##_##P() { alias<OP, int, ops::P, 1>(); } \
  extern "C" void H_den_##ON##_##P() { alias<OP, int, ops::P, 2>(); }
#define ALL(M, P) M(0, add, P) M(1, sub, P) M(2, mul, P) M(3, div, P) M(4, mod, P)
ALL(BIN1, fast) ALL(BIN1, safe_reduced_io)
ALL(ASG1, fast) ALL(ASG1, safe_reduced_io)
ALL(ALI1, fast) ALL(ALI1, safe_reduced_io) ALL(ALI1, safe)
ALL(ASG1, safe) ALL(ASG1, fast_reduced_i) ALL(ASG1, safe_reduced_o) ALL(BIN1, safe) ALL(BIN1, fast_reduced_o) ALL(BIN1, safe_reduced_i)
#define CMP1(P) \
  extern "C" void H_ff_cmp_il_##P() { cmp<int, long, ops::P, true, true>(); } extern "C" void H_ff_cmp_li_##P() { cmp<long, int, ops::P, true, true>(); } \
  extern "C" void H_fi_cmp_il_##P() { cmp<int, long, ops::P, true, false>(); } extern "C" void H_fi_cmp_li_##P() { cmp<long, int, ops::P, true, false>(); } \
  extern "C" void H_if_cmp_il_##P() { cmp<int, long, ops::P, false, true>(); } extern "C" void H_if_cmp_li_##P() { cmp<long, int, ops::P, false, true>(); }
CMP1(fast) CMP1(safe_reduced_io)
// representations of different signedness
#define BINX(OP, ON, P) \
  extern "C" void H_ff_##ON##_ul_##P() { bin<OP, unsigned, long, ops::P, true, true>(); } \
  extern "C" void H_fi_##ON##_lu_##P() { bin<OP, long, unsigned, ops::P, true, false>(); } \
  extern "C" void H_if_##ON##_ul_##P() { bin<OP, unsigned, long, ops::P, false, true>(); }
ALL(BINX, fast)
extern "C" void H_ff_cmp_ul_fast() { cmp<unsigned, long, ops::fast, true, true>(); }
extern "C" void H_fi_cmp_lu_fast() { cmp<long, unsigned, ops::fast, true, false>(); }
extern "C" void H_if_cmp_ul_fast() { cmp<unsigned, long, ops::fast, false, true>(); }
#define CONV(N, F, T, P, Q) extern "C" void H_conv_##N##_##P##_##Q() { conv<F, T, ops::P, ops::Q>(); }
CONV(il, int, long, fast, fast) CONV(il, int, long, safe_reduced_io, safe_reduced_io) CONV(il, int, long, safe_reduced_io, fast) CONV(ll, long, long, fast, safe_reduced_io)
CONV(ll, long, long, safe, fast_reduced_i) CONV(ii, int, int, safe_reduced_o, fast_reduced_io) CONV(uu, unsigned, unsigned, fast, safe) CONV(uU, unsigned, unsigned long, fast, safe_reduced_io)
CONV(ul, unsigned, long, safe_reduced_io, safe_reduced_io)
extern "C" void H_ratio_i32() { ratios<int, ops::safe_reduced_io>(); }
extern "C" void H_ratio_i64() { ratios<long, ops::fast>(); }
