"""Hash-consed machine-level terms: bit-vectors (w>0), booleans (w==0), floats (w in -32,-64,-80).

Every bit-vector term carries a signed and an unsigned interval that over-approximates its value.
The constructors simplify locally; all simplifications are exact bit-vector identities."""
import math, struct, sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'w', 'args', 'p', 'sl', 'sh', 'ul', 'uh', 'id', 'cl')
    def __repr__(self):
        return show(self)

_tab = {}
_n = 0

def reset():
    global _n
    # TRUE and FALSE are compared by identity everywhere: they survive a reset
    _tab.clear(); _n = 2
    _tab[('true', 0, (), None)] = TRUE; _tab[('false', 0, (), None)] = FALSE

def _mk(op, w, args, p=None, rng=None):
    global _n
    key = (op, w, tuple(a.id for a in args), p)
    t = _tab.get(key)
    if t is not None:
        if rng and w > 0:
            # same term, possibly better interval: intersect
            if rng[0] > t.sl: t.sl = rng[0]
            if rng[1] < t.sh: t.sh = rng[1]
            if rng[2] > t.ul: t.ul = rng[2]
            if rng[3] < t.uh: t.uh = rng[3]
        return t
    t = T()
    t.op, t.w, t.args, t.p = op, w, args, p
    t.id = _n; _n += 1
    t.cl = False
    if w > 0:
        if rng is None:
            h = 1 << (w - 1)
            rng = (-h, h - 1, 0, 2 * h - 1)
        t.sl, t.sh, t.ul, t.uh = rng
    _tab[key] = t
    return t

def show(t, d=4):
    if t.op == 'const': return '%d:%d' % (sval(t), t.w)
    if t.op in ('true', 'false'): return t.op
    if t.op == 'var': return t.p
    if d == 0: return '#%d' % t.id
    return '(%s%s %s)' % (t.op, '' if t.p is None else '[%s]' % (t.p,), ' '.join(show(a, d - 1) for a in t.args))

TRUE = _mk('true', 0, (), None)
FALSE = _mk('false', 0, (), None)

def to_s(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v
def norm_rng(w, sl, sh, ul, uh):
    """combine: clamp, and derive one from the other when possible"""
    h = 1 << (w - 1); m = (1 << w) - 1
    sl = max(sl, -h); sh = min(sh, h - 1); ul = max(ul, 0); uh = min(uh, m)
    if sl >= 0:
        ul = max(ul, sl); uh = min(uh, sh)
    elif sh < 0:
        ul = max(ul, sl + 2 * h); uh = min(uh, sh + 2 * h)
    if uh < h:
        sl = max(sl, ul); sh = min(sh, uh)
    elif ul >= h:
        sl = max(sl, ul - 2 * h); sh = min(sh, uh - 2 * h)
    return sl, sh, ul, uh
def rng_s(w, lo, hi):
    h = 1 << (w - 1)
    if lo < -h or hi > h - 1: return None
    return norm_rng(w, lo, hi, 0, 2 * h - 1)
def rng_u(w, lo, hi):
    h = 1 << (w - 1)
    if lo < 0 or hi > 2 * h - 1: return None
    return norm_rng(w, -h, h - 1, lo, hi)
def rng_both(w, slo, shi, ulo, uhi):
    h = 1 << (w - 1)
    if slo < -h or shi > h - 1: slo, shi = -h, h - 1
    if ulo < 0 or uhi > 2 * h - 1: ulo, uhi = 0, 2 * h - 1
    return norm_rng(w, slo, shi, ulo, uhi)

def const(v, w):
    v &= (1 << w) - 1
    s = to_s(v, w)
    t = _mk('const', w, (), v, (s, s, v, v))
    t.cl = True
    return t
def boolc(b): return TRUE if b else FALSE
def isc(t): return t.op == 'const'
def sval(t): return to_s(t.p, t.w)
def fconst(bits, w): return _mk('fconst', w, (), bits)

def var(name, w, lo=None, hi=None):
    h = 1 << (w - 1)
    rng = None
    if lo is not None:
        rng = rng_s(w, lo, hi) if lo < 0 or hi < h else rng_u(w, lo, hi)
    # one term per name and interval: the same input explored under different ranges gives different terms
    key = ('var', w, (), (name, lo, hi))
    t = _tab.get(key)
    if t is None:
        t = _mk('var', w, (), (name, lo, hi), rng)
        t.p = name
    return t

# ------------------------------------------------------------------ booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return _mk('not', 0, (a,))

def _nary(op, xs):
    unit, zero = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    out, seen = [], set()
    def add(x):
        if x is unit: return True
        if x is zero: return False
        if x.op == op:
            for y in x.args:
                if not add(y): return False
            return True
        if x.id in seen: return True
        n = not_(x)
        if n.id in seen: return False
        seen.add(x.id); out.append(x)
        return True
    for x in xs:
        if not add(x): return zero
    if not out: return unit
    if len(out) == 1: return out[0]
    # absorption: x and (x or y) -> x ; x and (not x or y) -> x and y
    dual = 'or' if op == 'and' else 'and'
    if any(o.op == dual for o in out):
        ids = {o.id for o in out if o.op != dual}
        res, changed = [], False
        for o in out:
            if o.op == dual:
                if any(y.id in ids for y in o.args): changed = True; continue
                keep = [y for y in o.args if not_(y).id not in ids]
                if len(keep) < len(o.args):
                    changed = True; res.append(and_(*keep) if dual == 'and' else or_(*keep)); continue
            res.append(o)
        if changed: return _nary(op, res)
    return _mk(op, 0, tuple(out))
def and_(*xs): return _nary('and', xs)
def or_(*xs): return _nary('or', xs)
def xor_(a, b):
    if a is TRUE: return not_(b)
    if b is TRUE: return not_(a)
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return FALSE
    if a is not_(b): return TRUE
    if a.op == 'not': return not_(xor_(a.args[0], b))
    if b.op == 'not': return not_(xor_(a, b.args[0]))
    if a.id > b.id: a, b = b, a
    return _mk('bxor', 0, (a, b))
def iff(a, b): return not_(xor_(a, b))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.w == 0:
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if b.op == 'ite' and b.args[1] is a: return ite(or_(c, b.args[0]), a, b.args[2])
    if a.w < 0: return _mk('ite', a.w, (c, a, b))
    sl, sh, ul, uh = min(a.sl, b.sl), max(a.sh, b.sh), min(a.ul, b.ul), max(a.uh, b.uh)
    # refine the branch intervals by comparisons of the very term with constants
    ra, rb = refine(a, c, True), refine(b, c, False)
    sl, sh, ul, uh = min(ra[0], rb[0]), max(ra[1], rb[1]), min(ra[2], rb[2]), max(ra[3], rb[3])
    t = _mk('ite', a.w, (c, a, b), None, (sl, sh, ul, uh))
    t.cl = a.cl and b.cl
    return t

def refine(t, c, pol):
    """interval of t given that condition c has truth value pol (single comparisons with constants only)"""
    r = (t.sl, t.sh, t.ul, t.uh)
    while c.op == 'not': c, pol = c.args[0], not pol
    if c.op in ('slt', 'sle', 'ult', 'ule') :
        x, y = c.args
        return _ref_cmp(t, r, c.op, x, y, pol)
    if (c.op == 'and' and pol) or (c.op == 'or' and not pol):
        sl, sh, ul, uh = r
        for d in c.args:
            q = refine(t, d, pol)
            sl, sh, ul, uh = max(sl, q[0]), min(sh, q[1]), max(ul, q[2]), min(uh, q[3])
        return (sl, sh, ul, uh) if sl <= sh and ul <= uh else r
    return r

def _ref_cmp(t, r, op, x, y, pol):
    sl, sh, ul, uh = r
    sg = op[0] == 's'; strict = op[2] == 't'
    neg = False
    # t may be the negation 0-x of the compared term
    def rel(z):
        if z is t: return 1
        if t.op == 'sub' and isc(t.args[0]) and t.args[0].p == 0 and t.args[1] is z and sg and z.sl > -(1 << (z.w - 1)): return -1
        return 0
    rx, ry = rel(x), rel(y)
    if rx:
        lo, hi = None, None
        ylo, yhi = (y.sl, y.sh) if sg else (y.ul, y.uh)
        if pol: hi = yhi - (1 if strict else 0)
        else: lo = ylo + (0 if strict else 1)
        k = rx
    elif ry:
        lo, hi = None, None
        xlo, xhi = (x.sl, x.sh) if sg else (x.ul, x.uh)
        if pol: lo = xlo + (1 if strict else 0)
        else: hi = xhi - (0 if strict else 1)
        k = ry
    else:
        return r
    if k < 0: lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    if sg:
        if lo is not None: sl = max(sl, lo)
        if hi is not None: sh = min(sh, hi)
    else:
        if lo is not None: ul = max(ul, lo)
        if hi is not None: uh = min(uh, hi)
    if sl > sh or ul > uh: return r
    q = norm_rng(t.w, sl, sh, ul, uh)
    return q if q[0] <= q[1] and q[2] <= q[3] else r

# ------------------------------------------------------------------ lifting over ite with constant leaves
def _lift(f, a, b):
    """f(a,b) where exactly one side is an ite tree with constant leaves and the other a constant"""
    if a.op == 'ite' and a.cl and isc(b):
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == 'ite' and b.cl and isc(a):
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None

# ------------------------------------------------------------------ arithmetic
def add(a, b, nsw=False):
    w = a.w
    if isc(a) and isc(b): return const(a.p + b.p, w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.p == 0: return a
        if a.op == 'add' and isc(a.args[1]) and not a.p and not nsw:
            return add(a.args[0], const(a.args[1].p + b.p, w))
    r = _lift(add, a, b)
    if r is not None: return r
    if not isc(b) and a.id > b.id: a, b = b, a
    lo, hi = a.sl + b.sl, a.sh + b.sh
    if nsw: lo, hi = max(lo, -(1 << (w - 1))), min(hi, (1 << (w - 1)) - 1)
    return _mk('add', w, (a, b), nsw or None, rng_both(w, lo, hi, a.ul + b.ul, a.uh + b.uh))
def sub(a, b, nsw=False):
    w = a.w
    if isc(a) and isc(b): return const(a.p - b.p, w)
    if isc(b) and not nsw: return add(a, const(-b.p, w))
    if isc(b) and b.p == 0: return a
    if a is b: return const(0, w)
    if not nsw and a.op == 'add' and not a.p:
        if a.args[0] is b: return a.args[1]
        if a.args[1] is b: return a.args[0]
    if isc(a) and a.p == 0 and b.op == 'sub' and isc(b.args[0]) and b.args[0].p == 0: return b.args[1]
    r = _lift(sub, a, b)
    if r is not None: return r
    lo, hi = a.sl - b.sh, a.sh - b.sl
    if nsw: lo, hi = max(lo, -(1 << (w - 1))), min(hi, (1 << (w - 1)) - 1)
    return _mk('sub', w, (a, b), nsw or None, rng_both(w, lo, hi, a.ul - b.uh, a.uh - b.ul))
def neg(a): return sub(const(0, a.w), a)
def _corners(a0, a1, b0, b1):
    c = (a0 * b0, a0 * b1, a1 * b0, a1 * b1)
    return min(c), max(c)
def mul(a, b, nsw=False):
    w = a.w
    if isc(a) and isc(b): return const(a.p * b.p, w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.p == 0: return b
        if b.p == 1: return a
    r = _lift(mul, a, b)
    if r is not None: return r
    if not isc(b) and a.id > b.id: a, b = b, a
    lo, hi = _corners(a.sl, a.sh, b.sl, b.sh)
    if a is b: lo = max(lo, 0)
    if nsw: lo, hi = max(lo, -(1 << (w - 1))), min(hi, (1 << (w - 1)) - 1)
    ulo, uhi = a.ul * b.ul, a.uh * b.uh
    return _mk('mul', w, (a, b), nsw or None, rng_both(w, lo, hi, ulo, uhi))

def tdiv(a, b): 
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def trem(a, b): return a - b * tdiv(a, b)

def core(t):
    while (t.op == 'sext' or t.op == 'zext' and t.args[0].sl >= 0) and t.args[0].w > 0 or (t.op == 'extract' and t.p[1] == 0 and
                                       (t.args[0].sl, t.args[0].sh) == (t.sl, t.sh)):
        t = t.args[0]
    return t
def gcd_of(b, a):
    """b is a gcd in which a takes part"""
    b = core(b)
    return b.op == 'gcd' and any(core(x) is core(a) for x in b.args)
def udiv(a, b):
    w = a.w
    if isc(b):
        if b.p == 1: return a
        if b.p and isc(a): return const(a.p // b.p, w)
        if b.p:
            r = _lift(udiv, a, b)
            if r is not None: return r
    lo = a.ul // max(b.uh, 1); hi = a.uh // max(b.ul, 1)
    if lo == 0 and a.ul > 0 and b.ul > 0 and gcd_of(b, a): lo = 1
    return _mk('udiv', w, (a, b), None, rng_both(w, -(1 << w), 0, lo if b.ul > 0 else 0, hi))
def urem(a, b):
    w = a.w
    if isc(b):
        if b.p and isc(a): return const(a.p % b.p, w)
        if b.p == 1: return const(0, w)
        if b.p:
            r = _lift(urem, a, b)
            if r is not None: return r
            if a.uh < b.p: return a
    return _mk('urem', w, (a, b), None, rng_both(w, -(1 << w), 0, 0, min(a.uh, max(b.uh - 1, 0))) if b.ul > 0 else rng_both(w, -(1 << w), 0, 0, a.uh))
def sdiv(a, b):
    w = a.w
    if isc(b):
        if b.p == 1: return a
        if b.p and isc(a): return const(tdiv(sval(a), sval(b)), w)
        if b.p:
            r = _lift(sdiv, a, b)
            if r is not None: return r
    if a.sl >= 0 and b.sl >= 0: return udiv(a, b)
    m = max(abs(a.sl), abs(a.sh))
    lo, hi = -m, m
    if a.sl >= 0 and b.sh < 0: hi = 0
    if a.sh <= 0 and b.sl > 0: hi = 0
    if a.sh <= 0 and b.sh < 0: lo = 0
    nz = b.sl > 0 or b.sh < 0
    if a.sh < 0 and b.sl > 0 and gcd_of(b, a): hi = -1
    # b==0 gives -1 or 1 in SMT-LIB; irrelevant for us (always guarded), but keep the interval sound
    if not nz: lo, hi = min(lo, -1), max(hi, 1)
    return _mk('sdiv', w, (a, b), None, rng_both(w, lo, hi, -1, 0))
def srem(a, b):
    w = a.w
    if isc(b):
        if b.p and isc(a): return const(trem(sval(a), sval(b)), w)
        if b.p == 1: return const(0, w)
        if b.p:
            r = _lift(srem, a, b)
            if r is not None: return r
    if a.sl >= 0 and b.sl >= 0: return urem(a, b)
    m = max(abs(b.sl), abs(b.sh)) - 1
    lo = max(min(a.sl, 0), -m) if (b.sl > 0 or b.sh < 0) else min(a.sl, 0)
    hi = min(max(a.sh, 0), m) if (b.sl > 0 or b.sh < 0) else max(a.sh, 0)
    return _mk('srem', w, (a, b), None, rng_both(w, lo, hi, -1, 0))

def _bits_s(a, b):
    k = max(abs(x) if x >= 0 else abs(x + 1) for x in (a.sl, a.sh, b.sl, b.sh)).bit_length()
    return -(1 << k), (1 << k) - 1
def _liftl(f, a, b):
    for x, y in ((a, b), (b, a)):
        if y.op == 'ite' and all(isc(l) for l in y.args[1:]) and all(sval(l) in (0, -1) for l in y.args[1:]):
            return ite(y.args[0], f(x, y.args[1]), f(x, y.args[2]))
    return None
def bvand(a, b):
    w = a.w; m = (1 << w) - 1
    if isc(a) and isc(b): return const(a.p & b.p, w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.p == 0: return b
        if b.p == m: return a
        r = _lift(bvand, a, b)
        if r is not None: return r
        if b.p & (b.p + 1) == 0 and a.uh <= b.p: return a
        if b.p & (b.p + 1) == 0:
            k = b.p.bit_length()
            return zext(extract(a, k - 1, 0), w)
    if a is b: return a
    r = _liftl(bvand, a, b)
    if r is not None: return r
    if not isc(b) and a.id > b.id: a, b = b, a
    return _mk('bvand', w, (a, b), None, rng_both(w, *_bits_s(a, b), 0, min(a.uh, b.uh)))
def bvor(a, b):
    w = a.w; m = (1 << w) - 1
    if isc(a) and isc(b): return const(a.p | b.p, w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.p == 0: return a
        if b.p == m: return b
        r = _lift(bvor, a, b)
        if r is not None: return r
    if a is b: return a
    r = _liftl(bvor, a, b)
    if r is not None: return r
    if not isc(b) and a.id > b.id: a, b = b, a
    return _mk('bvor', w, (a, b), None, rng_both(w, *_bits_s(a, b), max(a.ul, b.ul), (1 << max(a.uh.bit_length(), b.uh.bit_length())) - 1))
def bvxor(a, b):
    w = a.w
    if isc(a) and isc(b): return const(a.p ^ b.p, w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.p == 0: return a
        if b.p == (1 << w) - 1: return sub(b, a, True)
        r = _lift(bvxor, a, b)
        if r is not None: return r
    if a is b: return const(0, w)
    r = _liftl(bvxor, a, b)
    if r is not None: return r
    if not isc(b) and a.id > b.id: a, b = b, a
    return _mk('bvxor', w, (a, b), None, rng_both(w, *_bits_s(a, b), 0, (1 << max(a.uh.bit_length(), b.uh.bit_length())) - 1))
def shl(a, b):
    w = a.w
    if isc(b):
        if b.p >= w: return const(0, w)
        if b.p == 0: return a
        return mul(a, const(1 << b.p, w))
    if b.op == 'ite' and b.cl:
        return ite(b.args[0], shl(a, b.args[1]), shl(a, b.args[2]))
    if isc(a) and a.p == 0: return a
    lo, hi = 0, (a.uh << min(b.uh, w))
    return _mk('shl', w, (a, b), None, rng_both(w, -(1 << w), 0, a.ul << min(b.ul, w), hi))
def lshr(a, b):
    w = a.w
    if isc(b):
        if b.p >= w: return const(0, w)
        if b.p == 0: return a
        if isc(a): return const(a.p >> b.p, w)
        r = _lift(lshr, a, b)
        if r is not None: return r
        return zext(extract(a, w - 1, b.p), w)
    return _mk('lshr', w, (a, b), None, rng_both(w, -(1 << w), 0, a.ul >> min(b.uh, w), a.uh >> min(b.ul, w)))
def ashr(a, b):
    w = a.w
    if isc(b):
        k = min(b.p, w - 1)
        if k == 0: return a
        if isc(a): return const(sval(a) >> k, w)
        r = _lift(ashr, a, b)
        if r is not None: return r
        if a.sl >= 0: return lshr(a, const(k, w))
        return sext(extract(a, w - 1, k), w)
    return _mk('ashr', w, (a, b))

def zext(a, w):
    if a.w == w: return a
    if a.w == 0: return ite(a, const(1, w), const(0, w))
    if isc(a): return const(a.p, w)
    if a.op == 'zext': return zext(a.args[0], w)
    if a.op == 'ite' and a.cl: return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return _mk('zext', w, (a,), None, rng_u(w, a.ul, a.uh))
def sext(a, w):
    if a.w == w: return a
    if a.w == 0: return ite(a, const(-1, w), const(0, w))
    if isc(a): return const(sval(a), w)
    if a.op == 'sext': return sext(a.args[0], w)
    if a.op == 'zext': return zext(a.args[0], w)
    if a.op == 'ite' and a.cl: return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    if a.sl >= 0: return zext(a, w)
    return _mk('sext', w, (a,), None, rng_s(w, a.sl, a.sh))
def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w: return a
    if isc(a): return const(a.p >> lo, w)
    if a.op == 'concat':
        l = a.args[1]
        if lo >= l.w: return extract(a.args[0], hi - l.w, lo - l.w)
        if hi < l.w: return extract(l, hi, lo)
    if a.op == 'extract': return extract(a.args[0], hi + a.p[1], lo + a.p[1])
    if a.op in ('zext', 'sext'):
        x = a.args[0]
        if hi < x.w: return extract(x, hi, lo)
        if lo == 0: return zext(x, w) if a.op == 'zext' else sext(x, w)
        if a.op == 'zext' and lo >= x.w: return const(0, w)
        if a.op == 'zext': return zext(extract(x, x.w - 1, lo), w)
    if a.op == 'ite' and (a.cl or has_concat(a.args[1]) or has_concat(a.args[2])):
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if a.op in ('bvor', 'bvand', 'bvxor'):
        f = {'bvor': bvor, 'bvand': bvand, 'bvxor': bvxor}[a.op]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if a.op == 'mul':
        for i in (0, 1):
            c = a.args[i]
            if isc(c) and c.p:
                k = (c.p & -c.p).bit_length() - 1
                if hi < k: return const(0, w)
                if c.p == 1 << k and lo >= k: return extract(a.args[1 - i], hi - k, lo - k)
    if a.uh >> lo == 0: return const(0, w)
    if w == 1 and hi == a.w - 1: return ite(slt(a, const(0, a.w)), const(1, 1), const(0, 1))
    rng = None
    if lo == 0:
        h = 1 << (w - 1)
        if a.sl >= -h and a.sh < h: rng = rng_s(w, a.sl, a.sh)
        elif a.uh < 2 * h: rng = rng_u(w, a.ul, a.uh)
    else:
        rng = rng_u(w, 0, min((1 << w) - 1, a.uh >> lo))
        if a.uh >> lo < (1 << w): rng = rng_u(w, a.ul >> lo, a.uh >> lo)
    return _mk('extract', w, (a,), (hi, lo), rng)
def trunc(a, w):
    if w == 0:  # to i1
        if a.op == 'ite' and a.cl: return ite(a.args[0], trunc(a.args[1], 0), trunc(a.args[2], 0))
        if isc(a): return boolc(a.p & 1)
        return eq(extract(a, 0, 0), const(1, 1))
    return extract(a, w - 1, 0)
def has_concat(a):
    return a.op == 'concat' or isc(a) or (a.op == 'ite' and (has_concat(a.args[1]) or has_concat(a.args[2])))
def concat(h, l):
    w = h.w + l.w
    if isc(h) and isc(l): return const(h.p << l.w | l.p, w)
    if isc(h) and h.p == 0: return zext(l, w)
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.p[1] == l.p[0] + 1:
        return extract(h.args[0], h.p[0], l.p[1])
    return _mk('concat', w, (h, l), None, rng_u(w, (h.ul << l.w) + l.ul, (h.uh << l.w) + l.uh))

# ------------------------------------------------------------------ comparisons
def eq(a, b):
    if a is b: return TRUE
    if a.w == 0: return iff(a, b)
    if isc(a) and isc(b): return boolc(a.p == b.p)
    if a.sl > b.sh or a.sh < b.sl or a.ul > b.uh or a.uh < b.ul: return FALSE
    if isc(a): a, b = b, a
    r = _lift(eq, a, b)
    if r is not None: return r
    if isc(b):
        if a.op in ('zext',) and b.p >> a.args[0].w == 0: return eq(a.args[0], const(b.p, a.args[0].w))
        if a.op == 'sext' and a.args[0].sl <= sval(b) <= a.args[0].sh: return eq(a.args[0], const(b.p, a.args[0].w))
        if a.op == 'extract' and a.p[1] == 0 and a.args[0].op == 'ite' and -(1 << (a.w - 1)) <= a.args[0].sl and a.args[0].sh < 1 << (a.w - 1):
            return eq(a.args[0], const(sval(b), a.args[0].w))
        if a.op == 'add' and isc(a.args[1]): return eq(a.args[0], const(b.p - a.args[1].p, a.w))
        if b.p == 0 and a.op == 'sub': return eq(a.args[0], a.args[1])
        if b.p == 0 and a.op in ('gcd', 'lcm') :
            z = [eq(x, const(0, x.w)) for x in a.args]
            return and_(*z) if a.op == 'gcd' else or_(*z)
        if a.op == 'ite':   # one constant branch that decides
            c, x, y = a.args
            ex, ey = eq(x, b), eq(y, b)
            if ex in (TRUE, FALSE) or ey in (TRUE, FALSE): return ite(c, ex, ey)
    if a.op == 'sub' and b.op == 'sub' and isc(a.args[0]) and isc(b.args[0]) and a.args[0] is b.args[0]: return eq(a.args[1], b.args[1])
    if a.op == b.op and a.op in ('zext', 'sext') and a.args[0].w == b.args[0].w: return eq(a.args[0], b.args[0])
    if not isc(b) and a.id > b.id: a, b = b, a
    return _mk('eq', 0, (a, b))
def ne(a, b): return not_(eq(a, b))
def slt(a, b):
    if a.sh < b.sl: return TRUE
    if a.sl >= b.sh: return FALSE
    if a is b: return FALSE
    r = _lift(slt, a, b)
    if r is not None: return r
    if isc(b) and a.op in ('sext', 'zext') and a.w > a.args[0].w:
        x = a.args[0]
        h = 1 << (x.w - 1)
        if a.op == 'sext' and -h <= sval(b) < h: return slt(x, const(b.p, x.w))
    if isc(a) and b.op == 'sext':
        x = b.args[0]; h = 1 << (x.w - 1)
        if -h <= sval(a) < h: return slt(const(a.p, x.w), x)
    if isc(b) and b.p == 0 and a.op in ('bvxor', 'bvand', 'bvor'):
        f = {'bvxor': xor_, 'bvand': and_, 'bvor': or_}[a.op]
        return f(slt(a.args[0], b), slt(a.args[1], b))
    if isc(a): return not_(slt(b, const(sval(a) + 1, a.w))) if sval(a) < (1 << (a.w - 1)) - 1 else FALSE
    return _mk('slt', 0, (a, b))
def sle(a, b): return not_(slt(b, a))
def ult(a, b):
    if a.uh < b.ul: return TRUE
    if a.ul >= b.uh: return FALSE
    if a is b: return FALSE
    r = _lift(ult, a, b)
    if r is not None: return r
    if a.sl >= 0 and b.sl >= 0: return slt(a, b)
    return _mk('ult', 0, (a, b))
def ule(a, b): return not_(ult(b, a))

def saddo(a, b):
    h = 1 << (a.w - 1); lo, hi = a.sl + b.sl, a.sh + b.sh
    if -h <= lo and hi < h: return FALSE
    if lo >= h or hi < -h: return TRUE
    r = _lift(saddo, a, b)
    if r is not None: return r
    return _mk('saddo', 0, (a, b))
def ssubo(a, b):
    h = 1 << (a.w - 1); lo, hi = a.sl - b.sh, a.sh - b.sl
    if -h <= lo and hi < h: return FALSE
    if lo >= h or hi < -h: return TRUE
    if isc(a) and a.p == 0: return eq(b, const(h, a.w))
    r = _lift(ssubo, a, b)
    if r is not None: return r
    return _mk('ssubo', 0, (a, b))
def smulo(a, b):
    h = 1 << (a.w - 1); lo, hi = _corners(a.sl, a.sh, b.sl, b.sh)
    if -h <= lo and hi < h: return FALSE
    if lo >= h or hi < -h: return TRUE
    r = _lift(smulo, a, b)
    if r is not None: return r
    return _mk('smulo', 0, (a, b))
def uaddo(a, b):
    m = 1 << a.w
    if a.uh + b.uh < m: return FALSE
    if a.ul + b.ul >= m: return TRUE
    return _mk('uaddo', 0, (a, b))
def usubo(a, b): return ult(a, b)
def umulo(a, b):
    m = 1 << a.w
    if a.uh * b.uh < m: return FALSE
    if a.ul * b.ul >= m: return TRUE
    return _mk('umulo', 0, (a, b))

def gcd(a, b, sa, sb, w):
    """std::gcd(a,b) with the given signedness of the arguments; width w result (w >= arg widths)"""
    if isc(a) and isc(b):
        return const(math.gcd(sval(a) if sa else a.p, sval(b) if sb else b.p), w)
    if isc(b) and b.p == 1 or isc(a) and a.p == 1: return const(1, w)
    ma = max(abs(a.sl), abs(a.sh)) if sa else a.uh
    mb = max(abs(b.sl), abs(b.sh)) if sb else b.uh
    def nz(x, s): return (x.sl > 0 or x.sh < 0) if s else x.ul > 0
    za, zb = nz(a, sa), nz(b, sb)
    hi = max(ma, mb)
    if za and zb: hi = min(ma, mb)
    elif za and ma >= 0: hi = ma
    elif zb: hi = mb
    lo = 1 if za or zb else 0
    return _mk('gcd', w, (a, b), (sa, sb), rng_u(w, lo, min(hi, (1 << (w - 1)))))
def lcm(a, b, sa, sb, w, signed):
    if isc(a) and isc(b):
        return const(math.lcm(sval(a) if sa else a.p, sval(b) if sb else b.p), w)
    ma = max(abs(a.sl), abs(a.sh)) if sa else a.uh
    mb = max(abs(b.sl), abs(b.sh)) if sb else b.uh
    def nz(x, s): return (x.sl > 0 or x.sh < 0) if s else x.ul > 0
    lo = 1 if nz(a, sa) and nz(b, sb) else 0
    mx = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    return _mk('lcm', w, (a, b), (sa, sb), rng_u(w, lo, min(ma * mb, mx)))
def lcmo(a, b, sa, sb, w, signed):
    """true iff lcm(a,b) is not representable"""
    ma = max(abs(a.sl), abs(a.sh)) if sa else a.uh
    mb = max(abs(b.sl), abs(b.sh)) if sb else b.uh
    mx = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    if ma * mb <= mx: return FALSE
    if isc(a) and isc(b):
        return boolc(math.lcm(sval(a) if sa else a.p, sval(b) if sb else b.p) > mx)
    return _mk('lcmo', 0, (a, b), (sa, sb, w, signed))

# ------------------------------------------------------------------ floats
FW = {-32: (8, 24), -64: (11, 53), -80: (15, 64)}
def _f(bits, w):
    if w == -32: return struct.unpack('<f', struct.pack('<I', bits))[0]
    if w == -64: return struct.unpack('<d', struct.pack('<Q', bits))[0]
    raise NotImplementedError
def _fb(x, w):
    if w == -32:
        try: return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
    if w == -64: return struct.unpack('<Q', struct.pack('<d', x))[0]
    raise NotImplementedError
def fpop(op, w, args, p=None):
    return _mk(op, w, tuple(args), p)
def fbits(bv, w):
    if bv.op == 'bitsof': return bv.args[0]
    if isc(bv): return fconst(bv.p, w)
    return _mk('fbits', w, (bv,))
def bitsof(f):
    n = -f.w
    if f.op == 'fbits': return f.args[0]
    if f.op == 'fconst': return const(f.p, n)
    if f.op == 'ite': return ite(f.args[0], bitsof(f.args[1]), bitsof(f.args[2]))
    return _mk('bitsof', n, (f,))

# ------------------------------------------------------------------ traversal / evaluation
def topo(roots):
    out, seen = [], set()
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen: st.append((a, False))
    return out

class EvalUndef(Exception): pass

def evaluate(roots, env, cache=None):
    """concrete evaluation; env maps var name -> unsigned int value (or bool)"""
    c = {} if cache is None else cache
    for t in topo(roots):
        if t.id in c: continue
        a = [c[x.id] for x in t.args]
        op, w = t.op, t.w
        m = (1 << w) - 1 if w > 0 else 0
        def S(i): return to_s(a[i], t.args[i].w)
        if op == 'const' or op == 'fconst': v = t.p
        elif op == 'true': v = True
        elif op == 'false': v = False
        elif op == 'var': v = env.get(t.p, 0) & m if w > 0 else bool(env.get(t.p, 0))
        elif op == 'not': v = not a[0]
        elif op == 'and': v = all(a)
        elif op == 'or': v = any(a)
        elif op == 'bxor': v = a[0] != a[1]
        elif op == 'ite': v = a[1] if a[0] else a[2]
        elif op == 'add': v = (a[0] + a[1]) & m
        elif op == 'sub': v = (a[0] - a[1]) & m
        elif op == 'mul': v = (a[0] * a[1]) & m
        elif op == 'udiv': v = a[0] // a[1] if a[1] else m
        elif op == 'urem': v = a[0] % a[1] if a[1] else a[0]
        elif op == 'sdiv': v = (tdiv(S(0), S(1)) if a[1] else (1 if S(0) < 0 else -1)) & m
        elif op == 'srem': v = (trem(S(0), S(1)) if a[1] else S(0)) & m
        elif op == 'bvand': v = a[0] & a[1]
        elif op == 'bvor': v = a[0] | a[1]
        elif op == 'bvxor': v = a[0] ^ a[1]
        elif op == 'shl': v = (a[0] << a[1]) & m if a[1] < w else 0
        elif op == 'lshr': v = a[0] >> a[1] if a[1] < w else 0
        elif op == 'ashr': v = (S(0) >> min(a[1], w - 1)) & m
        elif op == 'zext': v = int(a[0])
        elif op == 'sext': v = S(0) & m
        elif op == 'extract': v = (a[0] >> t.p[1]) & m
        elif op == 'concat': v = a[0] << t.args[1].w | a[1]
        elif op == 'eq': v = a[0] == a[1]
        elif op == 'slt': v = S(0) < S(1)
        elif op == 'ult': v = a[0] < a[1]
        elif op in ('saddo', 'ssubo', 'smulo'):
            r = {'saddo': S(0) + S(1), 'ssubo': S(0) - S(1), 'smulo': S(0) * S(1)}[op]
            h = 1 << (t.args[0].w - 1); v = not (-h <= r < h)
        elif op in ('uaddo', 'umulo'):
            r = a[0] + a[1] if op == 'uaddo' else a[0] * a[1]
            v = r >> t.args[0].w != 0
        elif op in ('gcd', 'lcm', 'lcmo'):
            x = abs(S(0)) if t.p[0] else a[0]; y = abs(S(1)) if t.p[1] else a[1]
            if op == 'gcd': v = math.gcd(x, y) & m
            elif op == 'lcm': v = math.lcm(x, y) & m
            else: v = math.lcm(x, y) > ((1 << (t.p[2] - 1)) - 1 if t.p[3] else (1 << t.p[2]) - 1)
        elif op == 'fbits': v = a[0]
        elif op == 'bitsof': v = a[0]
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            if w == -80: raise EvalUndef('x87')
            x, y = _f(a[0], w), _f(a[1], w)
            if op == 'fdiv':
                if y == 0:
                    sgn = (a[0] ^ a[1]) >> (-w - 1)
                    if x == 0 or x != x: r = float('nan')
                    else: r = float('-inf') if sgn else float('inf')
                    if x != x: r = float('nan')
                else: r = x / y
            else:
                r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y
            v = _fb(r, w)
        elif op == 'fneg': v = a[0] ^ (1 << (-w - 1))
        elif op in ('sitofp', 'uitofp'):
            n = S(0) if op == 'sitofp' else a[0]
            if w == -80: raise EvalUndef('x87')
            if w == -32:  # python rounds int->float correctly to double only
                v = _round_int(n, 24, w)
            else: v = _fb(float(n), w)
        elif op in ('fptosi', 'fptoui'):
            v = int(_f(a[0], t.args[0].w)) & m
        elif op in ('fpext', 'fptrunc'):
            if w == -80 or t.args[0].w == -80: raise EvalUndef('x87')
            v = _fb(_f(a[0], t.args[0].w), w)
        elif op == 'foeq': v = _f(a[0], t.args[0].w) == _f(a[1], t.args[0].w)
        elif op == 'folt': v = _f(a[0], t.args[0].w) < _f(a[1], t.args[0].w)
        elif op == 'fole': v = _f(a[0], t.args[0].w) <= _f(a[1], t.args[0].w)
        elif op == 'funo': v = _f(a[0], t.args[0].w) != _f(a[0], t.args[0].w) or _f(a[1], t.args[0].w) != _f(a[1], t.args[0].w)
        else: raise EvalUndef(op)
        c[t.id] = v
    return [c[r.id] for r in roots]

def _round_int(n, p, w):
    s = n < 0; n = abs(n)
    k = n.bit_length() - p
    if k > 0:
        r = n & ((1 << k) - 1); q = n >> k; h = 1 << (k - 1)
        if r > h or (r == h and q & 1): q += 1
        n = q << k
    return _fb(-float(n) if s else float(n), w)
