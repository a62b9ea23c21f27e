// Streams.  The library's operators are executed on a model stream: a sequence of tokens, each either one character or
// one number standing for its decimal text (the standard library's conversion between a number and its decimal text is
// taken at its contract).  The replay runs the same inputs through real string streams.
#include "sv.hpp"
#include <sstream>
#include <limits>
using namespace sv;
using namespace ieme;
#ifndef SV_NATIVE
struct tok { int kind; long v; };                            // 0: character, 1: signed number, 2: unsigned number
static tok toks[24];
static int ntok, rpos;
static bool bad, failed, ateof;                              // bad: outside the model
static long vtab[4];
struct fake { long* vptr; long rest[64]; };
static fake strm;
extern "C" {
void* svm_on(void* s, int kind, long v)
{
  if (s != &strm || ntok >= 24) { bad = true; return s; }
  if (kind && ntok && toks[ntok - 1].kind) bad = true;       // the digits of two numbers would run together
  toks[ntok].kind = kind; toks[ntok].v = v; ntok++;
  return s;
}
void* svm_os(void* s, short v) { return svm_on(s, 1, v); }
void* svm_ot(void* s, unsigned short v) { return svm_on(s, 2, v); }
void* svm_oi(void* s, int v) { return svm_on(s, 1, v); }
void* svm_oj(void* s, unsigned v) { return svm_on(s, 2, v); }
void* svm_ol(void* s, long v) { return svm_on(s, 1, v); }
void* svm_om(void* s, unsigned long v) { return svm_on(s, 2, (long)v); }
void* svm_oc(void* s, char c) { return svm_on(s, 0, c); }
void* svm_owrite(void* s, char const* p, long n) { for (long i = 0; i < n; ++i) svm_on(s, 0, p[i]); return s; }
void* svm_ostr(void* s, char const* p) { for (; *p; ++p) svm_on(s, 0, *p); return s; }
void* svm_oflush(void* s) { return s; }
void* svm_oman(void* s, void* (*f)(void*)) { return f(s); }
static bool blank(long c) { return c == ' ' || (c >= 9 && c <= 13); }
void* svm_ws(void* s) { while (rpos < ntok && toks[rpos].kind == 0 && blank(toks[rpos].v)) rpos++; return s; }
// formatted input of a number: true and *v set, or the stream fails
static bool take(void* s, long* v, bool* uns)
{
  if (s != &strm) bad = true;
  if (failed) return false;
  svm_ws(s);
  if (rpos >= ntok) { failed = true; ateof = true; return false; }
  if (toks[rpos].kind == 0) {
    if (toks[rpos].v == '-' || toks[rpos].v == '+' || (toks[rpos].v >= '0' && toks[rpos].v <= '9')) bad = true;
    failed = true; return false;
  }
  *v = toks[rpos].v; *uns = toks[rpos].kind == 2; rpos++;
  if (rpos >= ntok) ateof = true;
  return true;
}
#define IN(NAME, T) void* NAME(void* s, T* p) { long v; bool u; \
  if (!take(s, &v, &u)) { *p = 0; return s; } \
  W w = u ? (W)(unsigned long)v : (W)v; \
  if (!rng<T>::sg && w < 0) { bad = true; return s; } \
  if (w < (W)std::numeric_limits<T>::min()) { *p = std::numeric_limits<T>::min(); failed = true; } \
  else if (w > (W)std::numeric_limits<T>::max()) { *p = std::numeric_limits<T>::max(); failed = true; } \
  else *p = (T)w; \
  return s; }
IN(svm_ii, int) IN(svm_ij, unsigned) IN(svm_il, long) IN(svm_im, unsigned long)
// characters of a number token: its sign and its first digit are modelled, the digits after it only where they are the last
static int first()
{
  tok& t = toks[rpos];
  if (t.kind == 0) return (unsigned char)t.v;
  if (t.kind == 1 && t.v < 0) return '-';
  unsigned long u = (unsigned long)t.v;
  for (int k = 0; k < 20; ++k) if (u >= 10) u /= 10;
  return '0' + (int)u;
}
static void eat()
{
  tok& t = toks[rpos];
  if (t.kind == 0) { rpos++; return; }
  if (t.kind == 1 && t.v < 0) { t.kind = 2; t.v = (long)(0UL - (unsigned long)t.v); return; }
  if ((unsigned long)t.v >= 10) bad = true;
  rpos++;
}
void* svm_ignore(void* s, long n, int delim)
{
  if (failed) return s;
  bool const all = n == std::numeric_limits<long>::max();
  for (long k = 0; all || k < n; ++k) {
    if (rpos >= ntok) { ateof = true; break; }
    if (toks[rpos].kind) {
      if (delim == '-' || (delim >= '0' && delim <= '9')) { int c = first(); eat(); if (c == delim) break; }
      else if (all) rpos++;
      else eat();
      continue;
    }
    long c = toks[rpos++].v;
    if (c == delim) break;
  }
  return s;
}
void* svm_ignore1(void* s, long n) { return svm_ignore(s, n, -1); }
void* svm_ignore0(void* s) { return svm_ignore(s, 1, -1); }
int svm_get(void* s)
{
  if (failed || rpos >= ntok) { failed = ateof = true; return -1; }
  int c = first();
  eat();
  return c;
}
void* svm_getc(void* s, char* c) { int x = svm_get(s); if (x >= 0) *c = (char)x; return s; }
int svm_peek(void* s)
{
  if (failed) return -1;
  if (rpos >= ntok) { ateof = true; return -1; }
  return first();
}
void* svm_ic(void* s, char* c) { if (!failed) svm_ws(s); return svm_getc(s, c); }
void* svm_unget(void* s) { if (rpos > 0) { rpos--; if (toks[rpos].kind) bad = true; } else failed = true; return s; }
void* svm_putback(void* s, char c) { svm_unget(s); if (toks[rpos].v != c) bad = true; return s; }
bool svm_fail(void* s) { return failed; }
bool svm_ok(void* s) { return !failed; }
bool svm_good(void* s) { return !failed && !ateof; }
bool svm_eof(void* s) { return ateof; }
void svm_setstate(void* s, int f) { if (f & (std::ios::failbit | std::ios::badbit)) failed = true; if (f & std::ios::eofbit) ateof = true; }
void svm_clear(void* s, int f) { failed = ateof = false; svm_setstate(s, f); }
}
static void start() { ntok = rpos = 0; bad = failed = ateof = false; vtab[0] = vtab[1] = vtab[2] = 0; strm.vptr = vtab + 3; }
static std::ostream& os() { return *(std::ostream*)&strm; }
static std::istream& is() { return *(std::istream*)&strm; }
template <class T> bool isnum(int k, T v) { return toks[k].kind == (rng<T>::sg ? 1 : 2) && toks[k].v == (long)v; }
static bool ischr(int k, char c) { return toks[k].kind == 0 && toks[k].v == c; }
template <class T> bool emitted(T n, T d) { return ntok == 3 && isnum(0, n) && ischr(1, '/') && isnum(2, d) && !bad; }
template <class T> bool emitted2(T n, T d, T p, T q, char sep) { return ntok == 7 && isnum(0, n) && ischr(1, '/') && isnum(2, d) && ischr(3, sep) && isnum(4, p) && ischr(5, '/') && isnum(6, q) && !bad; }
template <class T> void text(T n, T d) { svm_on(&strm, rng<T>::sg ? 1 : 2, (long)n); svm_oc(&strm, '/'); svm_on(&strm, rng<T>::sg ? 1 : 2, (long)d); }
static bool okread() { return !failed && !bad; }
static bool drained() { return rpos == ntok; }
#else
static std::stringstream strm;
static void start() { strm.str(""); strm.clear(); }
static std::ostream& os() { return strm; }
static std::istream& is() { return strm; }
template <class T> bool emitted(T n, T d) { return strm.str() == std::to_string(n) + "/" + std::to_string(d); }
template <class T> bool emitted2(T n, T d, T p, T q, char sep) { return strm.str() == std::to_string(n) + "/" + std::to_string(d) + sep + std::to_string(p) + "/" + std::to_string(q); }
template <class T> void text(T n, T d) { strm << std::to_string(n) + "/" + std::to_string(d); }
static bool okread() { return !strm.fail(); }
static bool drained() { return strm.peek() == EOF; }
#endif
template <class T> T anyv() { return rng<T>::sg ? in<T>(sizeof(T) == 4 ? -2147483648L : -9223372036854775807L - 1, rng<T>::full) : sizeof(T) == 4 ? in<T>(0, rng<T>::full) : (T)sv_urange(0, ~0UL); }
template <class F, class T> void write()
{
  T n = anyv<T>(), d = anyv<T>();
  F const f = raw_fraction<T>(n, d);
  start();
  auto s = &(os() << f);
  sv_assert(s == &os(), 1);
  sv_assert(emitted(n, d), 2);
  sv_done();
}
template <class T> T n_(raw_fraction<T> const& f) { return f.numerator; }
template <class T> T d_(raw_fraction<T> const& f) { return f.denominator; }
template <class T, class O> T n_(fraction<T, O> const& f) { return f.num(); }
template <class T, class O> T d_(fraction<T, O> const& f) { return f.den(); }
template <class F, class T> void read()
{
  T n = anyv<T>(), d = anyv<T>();
  start();
  text(n, d);
  F f = raw_fraction<T>(anyv<T>(), anyv<T>());
  auto s = &(is() >> f);
  sv_assert(s == &is(), 1);
  sv_assert(okread(), 2);
  sv_assert(n_(f) == n && d_(f) == d, 3);
  sv_assert(drained(), 4);
  sv_out((long)n_(f)); sv_out((long)d_(f));
  sv_done();
}
// two values written one after the other with something between them come back in order
template <class F, class T> void two(char sep)
{
  T n = anyv<T>(), d = anyv<T>(), p = anyv<T>(), q = anyv<T>();
  F f = raw_fraction<T>(n, d), g = raw_fraction<T>(p, q), h = raw_fraction<T>(T(0), T(1)), k = raw_fraction<T>(T(0), T(0));
  start();
  os() << f << sep << g;
  sv_assert(emitted2(n, d, p, q, sep), 1);
  is() >> h >> k;
  sv_assert(okread(), 2);
  sv_assert(n_(h) == n && d_(h) == d, 3);
  sv_assert(n_(k) == p && d_(k) == q, 4);
  sv_assert(drained(), 5);
  sv_out((long)n_(h)); sv_out((long)d_(k));
  sv_done();
}
#define DEF(N, F, T) \
  extern "C" void H_write_##N() { write<F, T>(); } \
  extern "C" void H_read_##N() { read<F, T>(); } \
  extern "C" void H_two_space_##N() { two<F, T>(' '); } \
  extern "C" void H_two_line_##N() { two<F, T>('\n'); }
#define FR(P, T, N) using F_##N##_##P = fraction<T, ops::P>; DEF(N##_##P, F_##N##_##P, T)
#define RAW(T, N) using R_##N = raw_fraction<T>; DEF(raw_##N, R_##N, T)
SV_POLICIES(FR, int, i32)
FR(safe_reduced_io, long, i64) FR(safe_reduced_io, unsigned, u32) FR(safe_reduced_io, unsigned long, u64) FR(safe_reduced_io, long long, ll)
RAW(int, i32) RAW(long, i64) RAW(unsigned, u32) RAW(unsigned long, u64)
