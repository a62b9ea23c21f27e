// The decimal-string grammar: accepted exactly the C++ floating-point literals without suffix.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
// reference recogniser: one deterministic automaton step per character
enum { S0, ZERO, WD, WQ, DOT0, DOT1, FD, FQ, EX, ES, ED, EQ, HX, HD, HQ, HDOT0, HDOT1, HF, HFQ, BAD };
inline int cls(char c)
{
  int r = 9;                                      // anything else
  if (c == '0') r = 0; if (c >= '1' && c <= '9') r = 1; if (c == '\'') r = 2; if (c == '.') r = 3;
  if (c == 'e' || c == 'E') r = 4; if (c == 'p' || c == 'P') r = 5; if (c == '+' || c == '-') r = 6;
  if (c == 'x' || c == 'X') r = 7;
  if ((c >= 'a' && c <= 'd') || (c >= 'A' && c <= 'D') || c == 'f' || c == 'F') r = 8;
  return r;
}
inline int step(int s, int k)
{
  bool d = k <= 1, h = k <= 1 || k == 4 || k == 8;
  switch (s) {
    case S0: return k == 0 ? ZERO : d ? WD : k == 3 ? DOT0 : BAD;
    case ZERO: if (k == 7) return HX; [[fallthrough]];
    case WD: return d ? WD : k == 2 ? WQ : k == 3 ? DOT1 : k == 4 ? EX : BAD;
    case WQ: return d ? WD : BAD;
    case DOT0: return d ? FD : BAD;
    case DOT1: return d ? FD : k == 4 ? EX : BAD;
    case FD: return d ? FD : k == 2 ? FQ : k == 4 ? EX : BAD;
    case FQ: return d ? FD : BAD;
    case EX: return d ? ED : k == 6 ? ES : BAD;
    case ES: return d ? ED : BAD;
    case ED: return d ? ED : k == 2 ? EQ : BAD;
    case EQ: return d ? ED : BAD;
    case HX: return h ? HD : k == 3 ? HDOT0 : BAD;
    case HD: return h ? HD : k == 2 ? HQ : k == 3 ? HDOT1 : k == 5 ? EX : BAD;
    case HQ: return h ? HD : BAD;
    case HDOT0: return h ? HF : BAD;
    case HDOT1: return h ? HF : k == 5 ? EX : BAD;
    case HF: return h ? HF : k == 2 ? HFQ : k == 5 ? EX : BAD;
    case HFQ: return h ? HF : BAD;
    default: return BAD;
  }
}
template <int N> bool accepted(char const* p)
{
  int s = S0;
  for (int i = 0; i < N; ++i) s = step(s, cls(p[i]));
  return s == DOT1 || s == FD || s == ED;
}
template <int N> void scan()
{
  char buf[N + 1];
  for (int i = 0; i < N; ++i) buf[i] = (char)sv_range(-128, 127);
  bool a = accepted<N>(buf);
  auto r = parse_utilities::scan_floating_point_string(std::string_view(buf, N));
  sv_out(r.has_value());
  sv_assert(r.has_value() == a, 1);
  sv_done();
}
#define SC(N) extern "C" void H_scan_##N() { scan<N>(); }
SC(1) SC(2) SC(3) SC(4) SC(5) SC(6) SC(7) SC(8) SC(10) SC(12) SC(16)
#ifdef SV_THOROUGH
extern "C" void T_scan_20() { scan<20>(); }
extern "C" void T_scan_24() { scan<24>(); }
extern "C" void T_scan_32() { scan<32>(); }
#endif
// text that is not such a literal converts to an undefined fraction
template <int N, class R, class Ops> void reject()
{
  char buf[N + 1];
  for (int i = 0; i < N; ++i) buf[i] = (char)sv_range(-128, 127);
  sv_assume(!accepted<N>(buf));
  auto f = floating_point_string_to_fraction<R, Ops>(std::string_view(buf, N));
  sv_assert(f.den() == 0, 2);
  sv_done();
}
#define RJ(N) extern "C" void H_reject_i64_##N() { reject<N, long, ops::defaults>(); } extern "C" void H_reject_i32_##N() { reject<N, int, ops::fast>(); }
RJ(1) RJ(2) RJ(3) RJ(4) RJ(6) RJ(8)
