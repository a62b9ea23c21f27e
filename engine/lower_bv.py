"""Lowering of machine terms to bit-vectors / floating point (z3py expressions)."""
import z3
import terms as tm
from terms import TRUE, FALSE

import os
VERB = os.environ.get('SV_VERB')
class BVUnsupported(Exception): pass
strip = tm.core
_P2 = {}
def isp2(t):
    """the term is a power of two on every path where shift amounts are in range and nothing guarded overflows"""
    r = _P2.get(t)
    if r is None:
        if len(_P2) > 200000: _P2.clear()
        r = _P2[t] = _isp2(t)
    return r
def _isp2(t):
    if t.op == 'const': return t.p > 0 and t.p & (t.p - 1) == 0
    if t.op == 'shl': return t.args[0].op == 'const' and isp2(t.args[0])
    if t.op == 'ite': return t.w > 0 and isp2(t.args[1]) and isp2(t.args[2])
    if t.op in ('zext', 'sext'): return t.args[0].w > 0 and isp2(t.args[0])
    if t.op == 'extract': return t.p[1] == 0 and t.args[0].ul == t.ul and t.args[0].uh == t.uh and isp2(t.args[0])
    if t.op == 'gcd': return any(isp2(x) for x in t.args)
    if t.op == 'lcm': return all(isp2(x) for x in t.args)
    if t.op == 'mul':
        A, B = t.args
        return bool(t.p or (A.uh * B.uh < 1 << (t.w - 1))) and isp2(A) and isp2(B)
    if t.op in ('udiv', 'sdiv'):
        # exact quotients of powers of two: a number by a gcd it takes part in, an lcm by one of its operands
        A, B = t.args
        if not (isp2(A) and isp2(B)): return False
        a, b = strip(A), strip(B)
        if b.op == 'gcd' and any(strip(x) is a for x in b.args): return True
        if a.op == 'lcm' and any(strip(x) is b for x in a.args): return True
    return False
_PZ = {}
def p2z(t):
    """a power of two or zero"""
    if t.op == 'const': return t.p & (t.p - 1) == 0
    if t.op == 'ite':
        if t.w <= 0: return False
        # iterative along the chain
        while t.op == 'ite':
            if not p2z(t.args[1]): return False
            t = t.args[2]
        return p2z(t)
    if t.op in ('zext', 'sext'): return t.args[0].w > 0 and p2z(t.args[0])
    if t.op in ('udiv', 'sdiv') and tm.gcd_of(t.args[1], t.args[0]): return p2z(t.args[0]) and p2arg(strip(t.args[1])) is not None
    if t.op == 'mul':
        A, B = t.args
        return bool(t.p or (A.uh * B.uh < 1 << (t.w - 1))) and p2z(A) and p2z(B)
    return isp2(t)
def p2arg(t):
    """index of a power-of-two-or-zero operand of a gcd / lcm, or None"""
    for i in (1, 0):
        if isp2(t.args[i]): return i
    for i in (1, 0):
        if t.args[i].op != 'const' and p2z(t.args[i]): return i
    return None
FS = {-32: z3.Float32, -64: z3.Float64, -80: lambda: z3.FPSort(15, 64)}
RNE = None

class BVLower:
    def __init__(self):
        self.memo = {}
        self.side = []     # range constraints of variables
        self.vars = {}
    def get(self, t):
        r = self.memo.get(t.id)
        if r is not None: return r
        for x in tm.topo([t]):
            if x.id not in self.memo: self.memo[x.id] = self.low(x)
        return self.memo[t.id]
    def low(self, t):
        op, w = t.op, t.w
        a = [self.memo[x.id] for x in t.args]
        if op == 'const': return z3.BitVecVal(t.p, w)
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'var':
            if w == 0:
                v = z3.Bool(t.p); self.vars[t.p] = (v, 0, False); return v
            if t.sl < 0:
                n = max((-t.sl - 1).bit_length(), max(t.sh, 0).bit_length()) + 1
                sg = True
            else:
                n = max(1, t.uh.bit_length()); sg = False
            n = min(n, w)
            v = z3.BitVec(t.p, n)
            if sg:
                if t.sl > -(1 << (n - 1)): self.side.append(v >= t.sl)
                if t.sh < (1 << (n - 1)) - 1: self.side.append(v <= t.sh)
            else:
                if t.ul > 0: self.side.append(z3.UGE(v, t.ul))
                if t.uh < (1 << n) - 1: self.side.append(z3.ULE(v, t.uh))
            self.vars[t.p] = (v, n, sg)
            if n < w: return z3.SignExt(w - n, v) if sg else z3.ZeroExt(w - n, v)
            return v
        if op == 'not': return z3.Not(a[0])
        if op == 'and': return z3.And(*a)
        if op == 'or': return z3.Or(*a)
        if op == 'bxor': return z3.Xor(a[0], a[1])
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op == 'add': return a[0] + a[1]
        if op == 'sub': return a[0] - a[1]
        if op == 'mul':
            for i in (0, 1):
                q = t.args[1 - i]
                if q.op != 'const' and p2z(q): return z3.If(self.zf(q), z3.BitVecVal(0, w), a[i] << self.exp2(q))
            return self.narrow(t, a, lambda x, y: x * y)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            D = t.args[1]
            if D.op == 'gcd' and not isp2(D) and not p2z(t) and p2arg(D) is not None:
                i = p2arg(D); X = D.args[1 - i]; B = D.args[i]
                z = self.zf(B)
                n0, n1 = z3.BitVecVal(0, w), z3.BitVecVal(1, w)
                rem = op.endswith('rem')
                k = self.gcdp2(D, [self.memo[x.id] for x in D.args])[1]
                sh = self.divk(op, a[0], k, w)
                if t.args[0] is X: zero = n0 if rem else (z3.If(a[0] == 0, n0, n1) if op[0] == 'u' else z3.If(a[0] == 0, n0, z3.If(a[0] < 0, z3.BitVecVal(-1, w), n1)))
                elif t.args[0] is B: zero = n0
                else: zero = None
                if zero is not None: return z3.If(z, zero, sh)
            if op.endswith('div') and p2z(t): return z3.If(self.zf(t), z3.BitVecVal(0, w), z3.BitVecVal(1, w) << self.exp2(t))
            if isp2(t.args[1]):
                # positive power of two (a negative one is the minimum value, excluded where it matters)
                k = self.exp2(t.args[1]); n = w; one = z3.BitVecVal(1, n)
                neg = a[1] == (one << (n - 1))
                if op[0] == 'u': return self.divk(op, a[0], k, w)
                q = self.divk('sdiv', a[0], k, w)
                mn = z3.BitVecVal(1 << (n - 1), n)
                q = z3.If(neg, z3.If(a[0] == mn, one, z3.BitVecVal(0, n)), q)
                if op == 'sdiv': return q
                return z3.If(neg, z3.If(a[0] == mn, z3.BitVecVal(0, n), a[0]), a[0] - (q << k))
            # total: x div 0 = 0, x rem 0 = x (never relied upon: division by zero is an obligation)
            f = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op]
            B = t.args[1]
            if B.ul > 0: g = f
            elif op.endswith('div'): g = lambda x, y: z3.If(y == 0, z3.BitVecVal(0, x.size()), f(x, y))
            else: g = lambda x, y: z3.If(y == 0, x, f(x, y))
            return self.narrow(t, a, g, op[0] == 's')
        if op == 'bvand': return a[0] & a[1]
        if op == 'bvor': return a[0] | a[1]
        if op == 'bvxor': return a[0] ^ a[1]
        if op == 'shl': return a[0] << a[1]
        if op == 'lshr': return z3.LShR(a[0], a[1])
        if op == 'ashr': return a[0] >> a[1]
        if op == 'zext': return z3.ZeroExt(w - t.args[0].w, a[0])
        if op == 'sext': return z3.SignExt(w - t.args[0].w, a[0])
        if op == 'extract': return z3.Extract(t.p[0], t.p[1], a[0])
        if op == 'concat': return z3.Concat(a[0], a[1])
        if op == 'eq': return a[0] == a[1]
        if op == 'slt': return a[0] < a[1]
        if op == 'ult': return z3.ULT(a[0], a[1])
        if op in ('saddo', 'ssubo', 'smulo', 'uaddo', 'umulo'):
            n = t.args[0].w
            ext = (lambda x, k: z3.SignExt(k, x)) if op[0] == 's' else (lambda x, k: z3.ZeroExt(k, x))
            if 'mul' in op:
                for i in (0, 1):
                    q = t.args[1 - i]
                    if q.op != 'const' and p2z(q):
                        k = self.exp2(q); nz = z3.Not(self.zf(q))
                        if op == 'umulo': return z3.And(nz, z3.LShR(a[i] << k, k) != a[i])
                        mn = z3.BitVecVal(1 << (n - 1), n)
                        return z3.And(nz, z3.If(a[1 - i] == mn, z3.UGT(a[i], 1), ((a[i] << k) >> k) != a[i]))
                # minimal double width from the intervals
                A, B = t.args
                k = n
                x, y = ext(a[0], k), ext(a[1], k)
                p = self.narrow_at(2 * n, A, B, x, y, lambda p, q: p * q, op[0] == 's')
                k = n
            else:
                k = 1
                x, y = ext(a[0], 1), ext(a[1], 1)
                p = x + y if 'add' in op else x - y
            lo = z3.Extract(n - 1, 0, p)
            return p != ext(lo, k)
        if op == 'fconst':
            return z3.fpBVToFP(z3.BitVecVal(t.p, -w), FS[w]()) if w != -80 else self._x87(t.p)
        if op == 'fbits': return z3.fpBVToFP(a[0], FS[w]())
        if op == 'bitsof':
            if t.args[0].w == -80: raise BVUnsupported('x87 bits')
            return z3.fpToIEEEBV(a[0])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return f(z3.RNE(), a[0], a[1])
        if op == 'fneg': return z3.fpNeg(a[0])
        if op == 'sitofp': return z3.fpSignedToFP(z3.RNE(), a[0], FS[w]())
        if op == 'uitofp': return z3.fpUnsignedToFP(z3.RNE(), a[0], FS[w]())
        if op == 'fptosi': return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(w))
        if op == 'fptoui': return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(w))
        if op in ('fpext', 'fptrunc'): return z3.fpFPToFP(z3.RNE(), a[0], FS[w]())
        if op == 'gcd' and p2arg(t) is not None: return self.gcdp2(t, a)[0]
        if op in ('lcm', 'lcmo') and p2arg(t) is not None: return self.lcmp2(t, a)
        if op == 'gcd': return self.fit(self.gcdn(t, a)[1], w)
        if op == 'lcm' or op == 'lcmo': return self.lcmn(t, a)
        if op == 'foeq': return z3.fpEQ(a[0], a[1])
        if op == 'folt': return z3.fpLT(a[0], a[1])
        if op == 'fole': return z3.fpLEQ(a[0], a[1])
        if op == 'funo': return z3.Or(z3.fpIsNaN(a[0]), z3.fpIsNaN(a[1]))
        raise BVUnsupported(op)
    # powers of two: exponent of a term for which isp2 holds, as a bit-vector of the term's width
    def exp2(self, t):
        key = ('exp2', t.id)
        r = self.memo.get(key)
        if r is not None: return r
        w = t.w
        if t.op == 'const': r = z3.BitVecVal(max(t.p.bit_length() - 1, 0), w)
        elif t.op == 'shl': r = z3.BitVecVal(t.args[0].p.bit_length() - 1, w) + self.get(t.args[1])
        elif t.op == 'ite': r = z3.If(self.get(t.args[0]), self.exp2(t.args[1]), self.exp2(t.args[2]))
        elif t.op in ('zext', 'sext'): r = z3.ZeroExt(w - t.args[0].w, self.exp2(t.args[0]))
        elif t.op == 'gcd': r = self.gcdp2(t, [self.get(x) for x in t.args])[1]
        elif t.op == 'extract': r = z3.Extract(w - 1, 0, self.exp2(t.args[0]))
        elif t.op == 'lcm':
            m = max([w] + [x.w for x in t.args])
            x, y = [self.fit(self.exp2(q), m) for q in t.args]
            r = self.fit(z3.If(z3.ULT(x, y), y, x), w)
        elif t.op == 'mul': r = self.exp2(t.args[0]) + self.exp2(t.args[1])
        elif t.op in ('udiv', 'sdiv'): r = self.exp2(t.args[0]) - self.exp2(t.args[1])
        else: raise BVUnsupported('exp2 ' + t.op)
        self.memo[key] = r
        return r
    def zf(self, t):
        """a p2z term is zero"""
        if isp2(t): return z3.BoolVal(False)
        key = ('zf', t.id)
        r = self.memo.get(key)
        if r is None:
            if t.op == 'const': r = z3.BoolVal(t.p == 0)
            elif t.op == 'ite': r = z3.If(self.get(t.args[0]), self.zf(t.args[1]), self.zf(t.args[2]))
            elif t.op == 'mul': r = z3.Or(self.zf(t.args[0]), self.zf(t.args[1]))
            else: r = self.zf(t.args[0])
            self.memo[key] = r
        return r
    @staticmethod
    def divk(op, x, k, w):
        one = z3.BitVecVal(1, w)
        if op == 'udiv': return z3.LShR(x, k)
        if op == 'urem': return x & ((one << k) - 1)
        q = (x + z3.If(x < 0, (one << k) - 1, z3.BitVecVal(0, w))) >> k
        return q if op == 'sdiv' else x - (q << k)
    @staticmethod
    def fit(v, m): return v if v.size() == m else (z3.Extract(m - 1, 0, v) if v.size() > m else z3.ZeroExt(m - v.size(), v))
    def low2(self, x, k):
        """min(number of trailing zeros of x, k); k when x = 0"""
        n = x.size()
        low = x & -x
        ex = z3.BitVecVal(0, n)
        for b in range(n.bit_length()):
            m = sum(1 << j for j in range(n) if j >> b & 1)
            if m: ex = ex | z3.If(low & m != 0, z3.BitVecVal(1 << b, n), z3.BitVecVal(0, n))
        m = max(n, k.size())
        ex, k = self.fit(ex, m), self.fit(k, m)
        return z3.If(z3.And(x != 0, z3.ULT(ex, k)), ex, k)
    def gcdp2(self, t, a):
        """gcd with a power of two (or zero) among the operands: (value, exponent when that operand is not zero)"""
        key = ('gcdp2', t.id)
        r = self.memo.get(key)
        if r is not None: return r
        i = p2arg(t)
        x = a[1 - i]; w = t.w
        e = self.fit(self.low2(x, self.exp2(t.args[i])), w)
        v = z3.BitVecVal(1, w) << e
        z = self.zf(t.args[i])
        if not z3.is_false(z):
            n = x.size(); sg = t.p[1 - i]
            ax = z3.If(x < 0, -x, x) if sg else x
            v = z3.If(z, self.fit(ax, w), v)
            if p2z(t.args[1 - i]): e = z3.If(z, self.fit(self.exp2(t.args[1 - i]), w), e)
        r = (v, e)
        self.memo[key] = r
        return r
    def lcmp2(self, t, a):
        i = p2arg(t)
        x = a[1 - i]; W = 2 * max(x.size(), t.args[i].w)
        X = z3.SignExt(W - x.size(), x) if t.p[1 - i] else z3.ZeroExt(W - x.size(), x)
        X = z3.If(X < 0, -X, X)
        k0 = self.exp2(t.args[i])
        k, e = self.fit(k0, W), self.fit(self.low2(x, k0), W)
        L = z3.If(self.zf(t.args[i]), z3.BitVecVal(0, W), z3.LShR(X, e) << k)
        if t.op == 'lcm': return self.fit(L, t.w)
        w, sg = t.p[2], t.p[3]
        return z3.UGT(L, (1 << (w - 1)) - 1 if sg else (1 << w) - 1)
    # gcd / lcm contract by Bezout coefficients, in a width that provably holds every intermediate value
    MAXG = 1 << 20
    def gcdn(self, t, a):
        A, B = t.args[0], t.args[1]
        p = t.p
        key = ('gcd', A.id, B.id, p[0], p[1])
        r = self.memo.get(key)
        if r is not None: return r
        ma = max(abs(A.sl), abs(A.sh)) if p[0] else A.uh
        mb = max(abs(B.sl), abs(B.sh)) if p[1] else B.uh
        M = max(ma, mb)
        if M > self.MAXG: raise BVUnsupported('gcd of wide operands' + (' ' + tm.show(A, 5) + ' , ' + tm.show(B, 5) if VERB else ''))
        n = M.bit_length() + 1
        W = 2 * n + 2
        def fit(x, w, k, sg):
            if w >= k: return z3.Extract(k - 1, 0, x)
            return z3.SignExt(k - w, x) if sg else z3.ZeroExt(k - w, x)
        x, y = fit(a[0], A.w, n, p[0]), fit(a[1], B.w, n, p[1])
        i = len(self.memo)
        g, ap, bp, u, v = [z3.BitVec('%s!%d' % (q, i), n) for q in ('g', 'ca', 'cb', 'bu', 'bv')]
        e = lambda q: z3.SignExt(W - n, q)
        z = z3.And(x == 0, y == 0)
        core = z3.And(g > 0, e(x) == e(g) * e(ap), e(y) == e(g) * e(bp), e(u) * e(ap) + e(v) * e(bp) == 1)
        self.side.append(z3.If(z, z3.And(g == 0, ap == 0, bp == 0), core))
        r = (None, g, ap, bp, x, y, n)
        self.memo[key] = r
        return r
    def lcmn(self, t, a):
        _, g, ap, bp, x, y, n = self.gcdn(t, a)
        W = 2 * n + 2
        e = lambda q: z3.SignExt(W - n, q)
        pr = e(x) * e(bp)
        L = z3.If(pr < 0, -pr, pr)
        if t.op == 'lcm': return z3.ZeroExt(t.w - W, L) if t.w > W else z3.Extract(t.w - 1, 0, L)
        w, sg = t.p[2], t.p[3]
        mx = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
        if mx >= 1 << (W - 1): return z3.BoolVal(False)
        return z3.UGT(L, mx)
    def _x87(self, bits):
        raise BVUnsupported('x87 constant')
    def narrow(self, t, a, f, signed=True):
        """compute in fewer bits when the intervals of operands and result allow it"""
        A, B = t.args
        return self.narrow_at(t.w, A, B, a[0], a[1], f, signed, t)
    def narrow_at(self, w, A, B, x, y, f, signed, t=None):
        # intervals of A,B as signed numbers; need a width where operands and the result are representable
        lo, hi = tm._corners(A.sl, A.sh, B.sl, B.sh) if signed else (0, A.uh * B.uh)
        if not signed: los, his = 0, max(A.uh, B.uh)
        else: los, his = min(A.sl, B.sl), max(A.sh, B.sh)
        isdiv = t is not None and t.op in ('udiv', 'urem', 'sdiv', 'srem')
        if isdiv:
            m = max(abs(los), abs(his)) + 1
        else: m = max(abs(lo), abs(hi), abs(los), abs(his)) + 1
        n = m.bit_length() + 1
        if n >= w: return f(x, y)
        r = f(z3.Extract(n - 1, 0, x), z3.Extract(n - 1, 0, y))
        return z3.SignExt(w - n, r) if signed else z3.ZeroExt(w - n, r)
