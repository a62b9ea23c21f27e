// Harness vocabulary.  Under the symbolic executor these are intrinsics; natively replay.cpp defines them.
#pragma once
#include <cstdint>
#include <cstring>
extern "C" {
long sv_range(long lo, long hi);                     // fresh symbolic value in [lo, hi]
unsigned long sv_urange(unsigned long lo, unsigned long hi);
long sv_case(long lo, long hi);                      // the executor runs the harness once per value
void sv_assume(bool c);
void sv_assert(bool c, int id);
void sv_out(long v);                                 // value compared between the encoding and the real code
void sv_done();                                      // reachability witness
}
#include <ieme/ieme.hpp>
namespace sv {
using W = __int128;
template <class T> T in(long lo, long hi) { return static_cast<T>(sv_range(lo, hi)); }
// half the width of the representation, and the full symmetric range (the minimum value has no negation)
template <class T> struct rng;
template <> struct rng<int> { static constexpr long half = 32767, full = 2147483647; static constexpr bool sg = true; };
template <> struct rng<unsigned> { static constexpr long half = 32767, full = 4294967295; static constexpr bool sg = false; };
template <> struct rng<long> { static constexpr long half = 2147483647, full = 9223372036854775807; static constexpr bool sg = true; };
template <> struct rng<unsigned long> { static constexpr long half = 2147483647, full = 9223372036854775807; static constexpr bool sg = false; };
template <> struct rng<long long> : rng<long> {};
template <> struct rng<unsigned long long> : rng<unsigned long> {};
template <class T> T num() { constexpr long b = rng<T>::half, lo = rng<T>::sg ? -b : 0; return in<T>(lo, b); }
template <class T> T den() { T x = num<T>(); sv_assume(x != 0); return x; }
template <class T> T fnum() { constexpr long b = rng<T>::full, lo = rng<T>::sg ? -b : 0; return in<T>(lo, b); }
template <class T> T fden() { T x = fnum<T>(); sv_assume(x != 0); return x; }
// every value an unsigned representation has, the symmetric range of a signed one; and a type for products of two of them
template <class T> T xnum() { if constexpr (!rng<T>::sg && sizeof(T) == 8) return (T)sv_urange(0, ~0ul); else return fnum<T>(); }
template <class T> T xden() { T x = xnum<T>(); sv_assume(x != 0); return x; }
template <class T> using wide = std::conditional_t<rng<T>::sg, __int128, unsigned __int128>;
template <class T, bool WIDE> T operand_num() { if constexpr (WIDE) return fnum<T>(); else return num<T>(); }
template <class T, bool WIDE> T operand_den() { if constexpr (WIDE) return fden<T>(); else return den<T>(); }
template <class Ops, class T> ieme::fraction<T, Ops> fr(T n, T d) { return ieme::fraction<T, Ops>(n, d); }
template <class T> bool fits(W x) { return x <= rng<T>::full && x >= (rng<T>::sg ? -(W)rng<T>::full : (W)0); }
inline W wabs(W x) { return x < 0 ? -x : x; }
template <class F> void out(F const& f) { sv_out((long)f.num()); sv_out((long)f.den()); }
// a mixed number in normal form, written directly into the object (so that no constructor is assumed correct)
template <class WR, class FR, class Ops> ieme::mixed_number<WR, FR, Ops> any(WR w, FR n, FR d)
{
  if constexpr (rng<FR>::sg) {
    sv_assume((W)n < wabs(d) && -(W)n < wabs(d));
    sv_assume(!(w > 0 && ((n > 0 && d < 0) || (n < 0 && d > 0))) && !(w < 0 && ((n > 0 && d > 0) || (n < 0 && d < 0))));
  } else sv_assume(n < d);
  using M = ieme::mixed_number<WR, FR, Ops>;
  struct parts { WR w; ieme::fraction<FR, Ops> f; } p {w, fr<Ops>(n, d)};
  if constexpr (sizeof(parts) == sizeof(M) && std::is_trivially_copyable_v<M>) {
    M m;
    __builtin_memcpy((void*)&m, &p, sizeof m);
    sv_assume(m.whole() == w && m.fractional().num() == n && m.fractional().den() == d);
    return m;
  } else return M(w, p.f);
}
// an operand of one of three kinds: a fraction, or an integer standing for n/1
template <bool Frac, class R, class Ops> auto operand(R n, R d) { if constexpr (Frac) return fr<Ops>(n, d); else return n; }
}
#define SV_POLICIES(M, ...) \
  M(safe, __VA_ARGS__) M(safe_reduced_i, __VA_ARGS__) M(safe_reduced_o, __VA_ARGS__) M(safe_reduced_io, __VA_ARGS__) \
  M(fast, __VA_ARGS__) M(fast_reduced_i, __VA_ARGS__) M(fast_reduced_o, __VA_ARGS__) M(fast_reduced_io, __VA_ARGS__)
#define SV_CAT_(a, b) a##b
#define SV_CAT(a, b) SV_CAT_(a, b)
