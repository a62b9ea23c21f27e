// Fractional durations and time points are exact.
#include "sv.hpp"
#include <ieme/chrono.hpp>
using namespace sv;
using namespace ieme;
namespace ic = ieme::chrono;
namespace sc = std::chrono;
// value of a count n/d in a unit of P seconds equals m/e in a unit of Q seconds, and both are defined
template <class P, class Q, class F, class G> bool same(F const& x, G const& y)
{
  using K = std::ratio_divide<P, Q>;
  return x.den() != 0 && y.den() != 0 && (W)x.num() * K::num * y.den() == (W)y.num() * ((W)x.den() * K::den);
}
// widest tick counts for which every step of a conversion and of its way back fits
template <class From, class To> constexpr long fac = std::ratio_divide<From, To>::num * std::ratio_divide<From, To>::den;
template <class From, class To, class R> constexpr long tlim = sizeof(R) == 4 ? 2147483647L / fac<From, To>
  : ((1L << 62) - 1) / fac<From, To> < 1L << 40 ? ((1L << 62) - 1) / fac<From, To> : 1L << 40;
template <class From, class To, class R> constexpr long dlim = sizeof(R) == 4 ? tlim<From, To, R>
  : tlim<From, To, R> < 1L << 20 ? tlim<From, To, R> : 1L << 20;
// an integer duration, made fractional and moved to another unit; and there and back
template <class From, class To, class R> void conv()
{
  R n = in<R>(-tlim<From, To, R>, tlim<From, To, R>);
  sc::duration<R, From> const d(n);
  auto const f = ic::to_fractional(d);
  using FD = std::remove_const_t<decltype(f)>;
  static_assert(std::is_same_v<typename FD::period, typename From::type>);
  out(f.count());
  sv_assert(f.count().den() != 0 && (W)f.count().num() == (W)n * f.count().den(), 1);
  using TD = ic::duration<R, To>;
  TD const t = d;                          // implicit conversion of the integer duration
  TD const u = f;                          // implicit conversion of the fractional one
  out(t.count()); out(u.count());
  fraction<R> const nn(n, R(1));
  sv_assert(same<From, To>(nn, t.count()), 2);
  sv_assert(same<From, To>(nn, u.count()), 3);
  FD const back = u;
  sv_assert(same<From, From>(nn, back.count()), 4);
  sv_done();
}
// a fractional duration
template <class From, class To, class R> void frac()
{
  constexpr long a = tlim<From, To, R>, b = dlim<From, To, R>;
  R n = in<R>(-a, a), k = in<R>(1, b);
  using FD = ic::duration<R, From>; using TD = ic::duration<R, To>;
  fraction<R> const c(n, k);
  FD const f(c);
  TD const t = sc::duration_cast<TD>(f);
  TD const u = f;
  out(t.count()); out(u.count());
  sv_assert(same<From, To>(c, t.count()), 1);
  sv_assert(same<From, To>(c, u.count()), 2);
  FD const back = u;
  sv_assert(same<From, From>(c, back.count()), 3);
  sv_done();
}
// sums, differences and comparisons of durations in different units
template <class P, class Q, class R> void arith()
{
  using X = ic::duration<R, P>; using Y = ic::duration<R, Q>;
  using C = typename std::common_type_t<X, Y>::period;
  constexpr long kp = std::ratio_divide<P, C>::num, kq = std::ratio_divide<Q, C>::num;
  static_assert(std::ratio_divide<P, C>::den == 1 && std::ratio_divide<Q, C>::den == 1);
  constexpr long den = sizeof(R) == 4 ? 30 : 1000;
  constexpr long top = sizeof(R) == 4 ? 1L << 30 : 1L << 61;
  R a = in<R>(-(top / den / kp), top / den / kp), c = in<R>(-(top / den / kq), top / den / kq), b = in<R>(1, den), d = in<R>(1, den);
  X const x {fraction<R>(a, b)};
  Y const y {fraction<R>(c, d)};
  W u = (W)a * kp * d, v = (W)c * kq * b, e = (W)b * d;         // ticks of the common unit over b*d
  auto const s = x + y;
  auto const t = x - y;
  static_assert(std::is_same_v<typename decltype(s)::period, C>);
  out(s.count()); out(t.count());
  sv_assert(s.count().den() != 0 && (W)s.count().num() * e == (u + v) * s.count().den(), 1);
  sv_assert(t.count().den() != 0 && (W)t.count().num() * e == (u - v) * t.count().den(), 2);
  sv_assert((x < y) == (u < v) && (x > y) == (u > v), 3);
  sv_assert((x <= y) == (u <= v) && (x >= y) == (u >= v), 4);
  sv_assert((x == y) == (u == v) && (x != y) == (u != v), 5);
  sv_done();
}
// a clock under the control of the check
template <class R, class P, bool St> struct stub {
  using rep = R; using period = P; using duration = sc::duration<R, P>; using time_point = sc::time_point<stub>;
  static constexpr bool is_steady = St;
  static inline R reading = 0;
  static time_point now() noexcept { return time_point(duration(reading)); }
};
template <class P, class To, class R> void points()
{
  constexpr long a = tlim<P, To, R> / 2;
  R n = in<R>(-a, a), m = in<R>(-a, a);
  using K = stub<R, P, true>;
  using T = sc::time_point<K>;
  T const p{sc::duration<R, P>(n)}, q{sc::duration<R, P>(m)};
  auto const f = ic::to_fractional(p);
  out(f.time_since_epoch().count());
  fraction<R> const nn(n, R(1));
  sv_assert(same<P, P>(nn, f.time_since_epoch().count()), 1);
  auto const g = ic::to_fractional(q);
  auto const w = f - g;
  sv_assert(w.count().den() != 0 && (W)w.count().num() == ((W)n - m) * w.count().den(), 2);
  sv_assert((f < g) == (n < m) && (f == g) == (n == m), 3);
  ic::time_point<K, R, To> const t = f;      // another unit
  out(t.time_since_epoch().count());
  sv_assert(same<P, To>(nn, t.time_since_epoch().count()), 4);
  sv_done();
}
template <class P, class To, class R, bool St> void wrapped()
{
  constexpr long a = tlim<P, To, R>;
  using K = stub<R, P, St>;
  R n = in<R>(-a, a), m = in<R>(-a, a);
  using Wc = ic::clock_wrapper<K, To>;
  static_assert(Wc::is_steady == St && std::is_same_v<typename Wc::period, To>);
  K::reading = n;
  auto const t = Wc::now();
  K::reading = m;
  auto const u = Wc::now();
  out(t.time_since_epoch().count()); out(u.time_since_epoch().count());
  fraction<R> const nn(n, R(1)), mm(m, R(1));
  sv_assert(same<P, To>(nn, t.time_since_epoch().count()), 1);
  sv_assert(same<P, To>(mm, u.time_since_epoch().count()), 2);
  using V = ic::clock_wrapper<K>;            // in the clock's own unit
  auto const v = V::now();
  sv_assert(same<P, P>(mm, v.time_since_epoch().count()), 3);
  sv_done();
}
// the policy chosen by the caller
template <class P, class To, class R, class Ops> void policy()
{
  R n = in<R>(-tlim<P, To, R>, tlim<P, To, R>);
  sc::duration<R, P> const d(n);
  ic::duration_like<sc::duration<R, P>, Ops> const f = d;
  using K = stub<R, P, true>;
  ic::time_point_like<sc::time_point<K>, Ops> const t = sc::time_point<K>(d);
  K::reading = n;
  auto const w = ic::clock_wrapper<K, P, Ops>::now();
  out(f.count()); out(t.time_since_epoch().count()); out(w.time_since_epoch().count());
  fraction<R> const nn(n, R(1));
  sv_assert(same<P, P>(nn, f.count()), 1);
  sv_assert(same<P, P>(nn, t.time_since_epoch().count()), 2);
  sv_assert(same<P, P>(nn, w.time_since_epoch().count()), 3);
  ic::duration<R, To, Ops> const u = f;
  out(u.count());
  sv_assert(same<P, To>(nn, u.count()), 4);
  sv_done();
}
using ns = std::nano; using us = std::micro; using ms = std::milli; using s_ = std::ratio<1>; using mn = std::ratio<60>; using h_ = std::ratio<3600>;
using fps = std::ratio<1, 30>; using odd = std::ratio<7, 12>;
#define C2(A, B, R, RN) \
  extern "C" void H_conv_##A##_##B##_##RN() { conv<A, B, R>(); } \
  extern "C" void H_frac_##A##_##B##_##RN() { frac<A, B, R>(); }
#define BOTH(A, B, R, RN) C2(A, B, R, RN) C2(B, A, R, RN) \
  extern "C" void H_arith_##A##_##B##_##RN() { arith<A, B, R>(); }
BOTH(ns, us, long, i64) BOTH(ns, ms, long, i64) BOTH(ns, s_, long, i64) BOTH(ns, h_, long, i64) BOTH(us, mn, long, i64) BOTH(ms, mn, long, i64)
BOTH(s_, h_, long, i64) BOTH(s_, mn, long, i64) BOTH(mn, h_, long, i64) BOTH(fps, ms, long, i64) BOTH(odd, fps, long, i64)
BOTH(ms, s_, int, i32) BOTH(s_, h_, int, i32) BOTH(mn, h_, int, i32) BOTH(fps, odd, int, i32)
C2(s_, s_, long, i64) C2(s_, s_, int, i32)
#define PT(A, B, R, RN) \
  extern "C" void H_points_##A##_##B##_##RN() { points<A, B, R>(); } \
  extern "C" void H_clock_##A##_##B##_##RN() { wrapped<A, B, R, true>(); } \
  extern "C" void H_clock_u_##A##_##B##_##RN() { wrapped<A, B, R, false>(); }
PT(ns, s_, long, i64) PT(ns, ns, long, i64) PT(ns, h_, long, i64) PT(us, ms, long, i64) PT(s_, ms, long, i64) PT(ms, s_, int, i32) PT(s_, mn, int, i32)
#define PO(P, A, B, R, RN) \
  extern "C" void H_policy_##A##_##B##_##RN##_##P() { policy<A, B, R, ops::P>(); }
SV_POLICIES(PO, ns, s_, long, i64)
SV_POLICIES(PO, s_, ms, int, i32)
