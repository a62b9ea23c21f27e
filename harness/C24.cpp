// Safe policies avoid avoidable overflow: whenever both operands rescaled to their least common denominator, and the
// result on it, fit the representation, the operation is exact - however large the product of the denominators is.
#include "sv.hpp"
#include <numeric>
using namespace sv;
using namespace ieme;
template <class R> R gcd_(R x, R y) { return std::gcd(x, y); }
// OP: 0 + 1 - 2 % 3 compare;  IN: the policy reduces its operands first
template <class R, class Ops, int OP, bool IN, bool LF, bool RF> void op()
{
  R a = fnum<R>(), c = fnum<R>(), b = LF ? fden<R>() : R(1), d = RF ? fden<R>() : R(1);
  auto x = operand<LF, R, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  if constexpr (OP == 2) sv_assume(c != 0);
  R p = a, q = b, s = c, t = d;
  if constexpr (IN) {
    R g = gcd_(a, b), h = gcd_(c, d);
    p = a / g; q = b / g; s = c / h; t = d / h;
  }
  R g = gcd_(q, t);
  W L = wabs((W)(q / g) * t);
  W u = L / q * p, v = L / t * s;           // the operands over the common denominator L
  sv_assume(fits<R>(L) && fits<R>(u) && fits<R>(v));
  if constexpr (OP == 3) {
    bool lt = x < y, le = x <= y, gt = x > y, ge = x >= y, eq = x == y, ne = x != y;
    sv_out(lt + 2 * le + 4 * gt + 8 * ge + 16 * eq + 32 * ne);
    sv_assert(lt == (u < v), 1);
    sv_assert(le == (u <= v), 2);
    sv_assert(gt == (u > v), 3);
    sv_assert(ge == (u >= v), 4);
    sv_assert(eq == (u == v), 5);
    sv_assert(ne == (u != v), 6);
  } else {
    W e = OP == 0 ? u + v : OP == 1 ? u - v : u % v;
    sv_assume(fits<R>(e));
    auto r = [&] { if constexpr (OP == 0) return x + y; else if constexpr (OP == 1) return x - y; else return x % y; }();
    out(r);
    sv_assert(r.den() != 0, 1);
    sv_assert((W)r.num() * L == e * r.den(), 2);
  }
  sv_done();
}
// OP: 4 * 5 /  for the policies that reduce their operands
template <class R, class Ops, int OP, bool LF, bool RF> void mul()
{
  R a = fnum<R>(), c = fnum<R>(), b = LF ? fden<R>() : R(1), d = RF ? fden<R>() : R(1);
  auto x = operand<LF, R, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  if constexpr (OP == 5) sv_assume(c != 0);
  R g = gcd_(a, b), h = gcd_(c, d);
  R p = a / g, q = b / g, s = c / h, t = d / h;
  W n = OP == 4 ? (W)p * s : (W)p * t, m = OP == 4 ? (W)q * t : (W)q * s;
  sv_assume(fits<R>(n) && fits<R>(m));
  auto r = [&] { if constexpr (OP == 4) return x * y; else return x / y; }();
  out(r);
  sv_assert(r.den() != 0, 1);
  sv_assert((W)r.num() * m == n * r.den(), 2);
  sv_done();
}
#define OPS_(H, P, R, RN, IN, S, LF, RF) \
  extern "C" void H##_plus_##S##_##RN##_##P() { op<R, ops::P, 0, IN, LF, RF>(); } \
  extern "C" void H##_minus_##S##_##RN##_##P() { op<R, ops::P, 1, IN, LF, RF>(); } \
  extern "C" void H##_mod_##S##_##RN##_##P() { op<R, ops::P, 2, IN, LF, RF>(); } \
  extern "C" void H##_cmp_##S##_##RN##_##P() { op<R, ops::P, 3, IN, LF, RF>(); }
#define OPS(P, R, RN, IN, S, LF, RF) OPS_(H, P, R, RN, IN, S, LF, RF)
#define MULS(P, R, RN, S, LF, RF) \
  extern "C" void H_times_##S##_##RN##_##P() { mul<R, ops::P, 4, LF, RF>(); } \
  extern "C" void H_over_##S##_##RN##_##P() { mul<R, ops::P, 5, LF, RF>(); }
#define K(P, R, RN, IN) OPS(P, R, RN, IN, ff, true, true) OPS(P, R, RN, IN, fi, true, false) OPS(P, R, RN, IN, if, false, true)
#define M(P, R, RN) MULS(P, R, RN, ff, true, true) MULS(P, R, RN, fi, true, false) MULS(P, R, RN, if, false, true)
#define DEFS(R, RN) K(safe, R, RN, false) K(safe_reduced_o, R, RN, false) K(safe_reduced_i, R, RN, true) K(safe_reduced_io, R, RN, true) \
  M(safe_reduced_i, R, RN) M(safe_reduced_io, R, RN)
DEFS(int, i32)
DEFS(unsigned, u32)
OPS(safe, long, i64, false, ff, true, true) OPS(safe_reduced_o, long, i64, false, fi, true, false) OPS(safe_reduced_i, long, i64, true, if, false, true)
MULS(safe_reduced_io, long, i64, ff, true, true)
#ifdef SV_THOROUGH
OPS_(T, safe_reduced_o, long, i64, false, ff, true, true) OPS_(T, safe_reduced_i, long, i64, true, ff, true, true) OPS_(T, safe_reduced_io, long, i64, true, ff, true, true)
OPS_(T, safe_reduced_io, long, i64, true, fi, true, false) OPS_(T, safe_reduced_io, long, i64, true, if, false, true)
#endif
