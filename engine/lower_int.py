"""Lowering of machine terms to non-linear integer arithmetic (SMT-LIB), exact under the side lemmas it reports.

Each bit-vector is represented by its signed value ('S'), its unsigned value ('U') or both ('B': they coincide).
Signed operations that the sanitizer guards with a trap are lowered to exact integer operations (their value is
used only on paths where the overflow bit is false; the overflow bit itself is an obligation).  Plain (unsigned)
operations whose interval does not rule out wrapping are lowered exactly and reported in `assumed`; the driver
proves, as a separate query, that none of them wraps, and otherwise re-lowers them with an explicit modulus."""
import terms as tm
from terms import TRUE, FALSE, isc, sval

class IntUnsupported(Exception): pass

def lit(n): return str(n) if n >= 0 else '(- %d)' % -n

class IntLower:
    def __init__(self, modterms=()):
        self.decl, self.ax = [], []
        self.memo = {}
        self.assumed = {}
        self.mod = set(modterms)
        self.n = 0
        self.gc = {}
        self.dv = {}
        self.dvl = []
        self.vars = {}
        self.lines = []
        self.uniq = False
        self.ufs = set()

    def fresh(self, base, sort='Int'):
        self.n += 1
        nm = '%s_%d' % (base, self.n)
        self.lines.append('(declare-const %s %s)' % (nm, sort))
        return nm
    def axiom(self, s): self.lines.append('(assert %s)' % s)
    def define(self, t, expr, sort='Int'):
        if len(expr) < 14: return expr
        self.n += 1
        nm = 't%d_%d' % (t.id, self.n)
        self.lines.append('(define-fun %s () %s %s)' % (nm, sort, expr))
        return nm

    # -------------------------------------------------- values
    def get(self, t):
        r = self.memo.get(t.id)
        if r is None:
            for x in tm.topo([t]):
                if x.id not in self.memo:
                    self.memo[x.id] = self.low(x)
            r = self.memo[t.id]
        return r
    def S(self, t):
        if isc(t): return lit(sval(t))
        k, e = self.get(t)
        if k in 'SB': return e
        return '(ite (>= %s %d) (- %s %d) %s)' % (e, 1 << (t.w - 1), e, 1 << t.w, e)
    def U(self, t):
        if isc(t): return lit(t.p)
        k, e = self.get(t)
        if k in 'UB': return e
        return '(ite (< %s 0) (+ %s %d) %s)' % (e, e, 1 << t.w, e)
    def kind(self, t):
        return 'B' if t.sl >= 0 else 'S'

    def low(self, t):
        op = t.op
        if t.w == 0: return ('P', self.lowb(t))
        if t.w < 0: return self.lowf(t)
        if op == 'const': return ('C', None)
        if op == 'var':
            nm = t.p
            if t.id not in self.vars:
                self.vars[t.id] = t
                self.lines.append('(declare-const %s Int)' % nm)
                k = 'S' if t.sl < 0 and not (t.sl == -(1 << (t.w - 1)) and t.ul == 0) else ('B' if t.sl >= 0 else 'S')
                self.axiom('(<= %s %s %s)' % (lit(t.sl), nm, lit(t.sh)))
            return (self.kind(t), nm)
        if op in ('add', 'sub', 'mul'):
            a, b = t.args
            o = {'add': '+', 'sub': '-', 'mul': '*'}[op]
            if op == 'add': lo, hi, ulo, uhi = a.sl + b.sl, a.sh + b.sh, a.ul + b.ul, a.uh + b.uh
            elif op == 'sub': lo, hi, ulo, uhi = a.sl - b.sh, a.sh - b.sl, a.ul - b.uh, a.uh - b.ul
            else:
                lo, hi = tm._corners(a.sl, a.sh, b.sl, b.sh); ulo, uhi = a.ul * b.ul, a.uh * b.uh
            h = 1 << (t.w - 1)
            if t.p or (-h <= lo and hi < h):
                return (self.kind(t), self.define(t, '(%s %s %s)' % (o, self.S(a), self.S(b))))
            if op == 'add' and isc(b) and b.p >= h and a.ul >= 2 * h - b.p:
                # adding a "negative" constant
                return ('B' if a.uh - (2 * h - b.p) < h else 'U', self.define(t, '(- %s %d)' % (self.U(a), 2 * h - b.p)))
            if ulo >= 0 and uhi < 2 * h:
                return ('U' if uhi >= h else 'B', self.define(t, '(%s %s %s)' % (o, self.U(a), self.U(b))))
            e = self.define(t, '(%s %s %s)' % (o, self.U(a), self.U(b)))
            if op == 'add' and isc(b) and b.p >= h:
                e = self.define(t, '(- %s %d)' % (self.U(a), 2 * h - b.p))
            if t.id in self.mod:
                return ('U', self.define(t, '(mod %s %d)' % (e, 2 * h)))
            self.assumed[t.id] = (t, '(or (< %s 0) (>= %s %d))' % (e, e, 2 * h))
            return ('U', e)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            a, b = t.args
            q, r = self.divrem(a, b, op[0] == 's', t)
            k = self.kind(t) if op[0] == 's' else ('U' if t.uh >= 1 << (t.w - 1) else 'B')
            return (k, q if op.endswith('div') else r)
        if op == 'zext':
            a = t.args[0]
            return ('B', self.U(a))
        if op == 'sext':
            a = t.args[0]
            return (self.kind(t), self.S(a))
        if op == 'extract':
            a = t.args[0]; hi, lo = t.p
            h = 1 << (t.w - 1)
            if lo == 0:
                if a.sl >= -h and a.sh < h: return (self.kind(t), self.S(a))
                if a.uh < 2 * h: return ('U', self.U(a))
                return ('U', self.define(t, '(mod %s %d)' % (self.U(a), 2 * h)))
            e = '(div %s %d)' % (self.U(a), 1 << lo)
            if a.uh >> lo >= 2 * h: e = '(mod %s %d)' % (e, 2 * h)
            return ('U', self.define(t, e))
        if op == 'concat':
            a, b = t.args
            return ('U', self.define(t, '(+ (* %d %s) %s)' % (1 << b.w, self.U(a), self.U(b))))
        if op == 'ite':
            c, a, b = t.args
            ka = self.get(a)[0] if not isc(a) else ('B' if sval(a) >= 0 else 'S')
            kb = self.get(b)[0] if not isc(b) else ('B' if sval(b) >= 0 else 'S')
            if ka == 'U' or kb == 'U':
                if (ka == 'S' and a.sl < 0) or (kb == 'S' and b.sl < 0):
                    return ('U', self.define(t, '(ite %s %s %s)' % (self.B(c), self.U(a), self.U(b))))
                return ('U', self.define(t, '(ite %s %s %s)' % (self.B(c), self.U(a), self.U(b))))
            return ('S' if 'S' in (ka, kb) and t.sl < 0 else 'B', self.define(t, '(ite %s %s %s)' % (self.B(c), self.S(a), self.S(b))))
        if op == 'gcd':
            g = self.gcdn(t.args[0], t.args[1], t.p)[0]
            return ('B' if t.uh < 1 << (t.w - 1) else 'U', g)
        if op == 'lcm':
            a, b = t.args
            return ('B' if t.uh < 1 << (t.w - 1) else 'U', self.lcmn(a, b, t.p))
        if op == 'shl':
            a, b = t.args
            if b.uh - b.ul <= 64 and b.uh < t.w:
                e = '0'
                h = 1 << t.w
                for k in range(b.ul, b.uh + 1):
                    v = '(* %d %s)' % (1 << k, self.U(a))
                    if a.uh << k >= h: v = '(mod %s %d)' % (v, h)
                    e = v if k == b.ul else '(ite (= %s %d) %s %s)' % (self.U(b), k, v, e)
                return ('U', self.define(t, e))
        if op == 'lshr':
            a, b = t.args
            if b.uh - b.ul <= 64 and b.uh < t.w:
                e = '0'
                for k in range(b.ul, b.uh + 1):
                    v = '(div %s %d)' % (self.U(a), 1 << k)
                    e = v if k == b.ul else '(ite (= %s %d) %s %s)' % (self.U(b), k, v, e)
                return ('U', self.define(t, e))
        if op == 'ashr':
            a, b = t.args
            if b.uh - b.ul <= 64 and b.uh < t.w:
                e = '0'
                for k in range(b.ul, b.uh + 1):
                    v = '(div %s %d)' % (self.S(a), 1 << k)
                    e = v if k == b.ul else '(ite (= %s %d) %s %s)' % (self.U(b), k, v, e)
                return ('S', self.define(t, e))
        if op in ('bvand', 'bvor', 'bvxor'):
            a, b = t.args
            if a.uh <= 1 < b.uh: a, b = b, a
            if b.uh <= 1:                    # the operand b is a single bit
                A, B = self.U(a), self.U(b)
                k = 'B' if t.uh < 1 << (t.w - 1) else 'U'
                odd = '(= (mod %s 2) 1)' % A if a.uh > 1 else '(= %s 1)' % A
                if op == 'bvand': e = '(ite (and (= %s 1) %s) 1 0)' % (B, odd)
                elif op == 'bvor': e = '(ite %s %s (+ %s %s))' % (odd, A, A, B)
                else: e = '(ite %s (- %s %s) (+ %s %s))' % (odd, A, B, A, B)
                return (k, self.define(t, e))
            # otherwise only: equal operands give equal results (an over-approximation; models are evaluated exactly)
            f = 'uf_%s_%d' % (op, t.w)
            if f not in self.ufs:
                self.ufs.add(f)
                self.lines.append('(declare-fun %s (Int Int) Int)' % f)
            A, B = self.U(a), self.U(b)
            r = self.fresh('uf')
            self.axiom('(and (= %s (%s %s %s)) (= %s (%s %s %s)) (<= %d %s %d))' % (r, f, A, B, r, f, B, A, t.ul, r, t.uh))
            return ('B' if t.uh < 1 << (t.w - 1) else 'U', r)
        raise IntUnsupported(op)

    @staticmethod
    def strip(t):
        while t.op in ('zext', 'sext') or (t.op == 'extract' and t.p[1] == 0 and
                                           (t.args[0].sl, t.args[0].sh) == (t.sl, t.sh)):
            t = t.args[0]
        return t

    def val(self, t, signed): return self.S(t) if signed else self.U(t)

    def gcdn(self, a, b, p):
        key = (self.val(a, p[0]), self.val(b, p[1]))
        r = self.gc.get(key)
        if r: return r
        if (key[1], key[0]) in self.gc:
            g, y, x = self.gc[(key[1], key[0])]
            self.gc[key] = (g, x, y); return self.gc[key]
        A, B = key
        g, ap, bp, u, v = [self.fresh(s) for s in ('g', 'ca', 'cb', 'bu', 'bv')]
        ma = max(abs(a.sl), abs(a.sh)) if p[0] else a.uh
        mb = max(abs(b.sl), abs(b.sh)) if p[1] else b.uh
        nza = (a.sl > 0 or a.sh < 0) if p[0] else a.ul > 0
        nzb = (b.sl > 0 or b.sh < 0) if p[1] else b.ul > 0
        core = '(and (>= %s 1) (= %s (* %s %s)) (= %s (* %s %s)) (= (+ (* %s %s) (* %s %s)) 1))' % (g, A, g, ap, B, g, bp, u, ap, v, bp)
        if nza or nzb: self.axiom(core)
        else: self.axiom('(ite (and (= %s 0) (= %s 0)) (and (= %s 0) (= %s 0) (= %s 0)) %s)' % (A, B, g, ap, bp, core))
        # redundant consequences that spare the solver some non-linear reasoning
        self.axiom('(<= 0 %s %d)' % (g, max(ma, mb)))
        self.axiom('(<= (- %d) %s %d)' % (ma, ap, ma))
        self.axiom('(<= (- %d) %s %d)' % (mb, bp, mb))
        for X, xp in ((A, ap), (B, bp)):
            self.axiom('(and (= (> %s 0) (> %s 0)) (= (< %s 0) (< %s 0)))' % (X, xp, X, xp))
            self.axiom('(=> (> %s 0) (and (<= %s %s) (<= %s %s)))' % (X, g, X, xp, X))
            self.axiom('(=> (< %s 0) (and (<= %s (- %s)) (>= %s %s)))' % (X, g, X, xp, X))
        # dividing both by the gcd preserves their order and that of their magnitudes
        self.axiom('(and (= (< %s %s) (< %s %s)) (= (< %s %s) (< %s %s)))' % (A, B, ap, bp, B, A, bp, ap))
        self.axiom('(and (= (< (- %s) %s) (< (- %s) %s)) (= (< %s (- %s)) (< %s (- %s))))' % (A, B, ap, bp, B, A, bp, ap))
        # consequences relating this gcd to the earlier ones: cofactors are coprime, equal magnitudes have equal gcds
        def eqabs(x, y): return '(or (= %s %s) (= %s (- %s)))' % (x, y, x, y)
        for k2, v2 in list(self.gc.items()):
            if len(k2) != 2 or len(v2) != 3: continue
            g2, ap2, bp2 = v2
            for X, Y in ((A, B), (B, A)):
                self.axiom('(=> (and (>= %s 1) %s %s) (= %s 1))' % (g2, eqabs(X, ap2), eqabs(Y, bp2), g))
                self.axiom('(=> (and %s %s) (= %s %s))' % (eqabs(X, k2[0]), eqabs(Y, k2[1]), g, g2))
            if self.uniq:
                # the lowest terms of a ratio are unique up to a common sign
                self.axiom('(=> (and (= (* %s %s) (* %s %s)) (not (= %s 0)) (not (= %s 0))) (or (and (= %s %s) (= %s %s)) (and (= %s (- %s)) (= %s (- %s)))))' % (
                    A, k2[1], k2[0], B, B, k2[1], ap, ap2, bp, bp2, ap, ap2, bp, bp2))
        self.gc[key] = (g, ap, bp)
        return self.gc[key]

    def lcmn(self, a, b, p):
        key = ('lcm', self.val(a, p[0]), self.val(b, p[1]))
        if key in self.gc: return self.gc[key]
        g, ap, bp = self.gcdn(a, b, p)
        A, B = key[1], key[2]
        L = self.fresh('L')
        pr = '(* %s %s)' % (A, bp)
        self.axiom('(= %s (ite (>= %s 0) %s (- %s)))' % (L, pr, pr, pr))
        pr2 = '(* %s %s)' % (B, ap)
        self.axiom('(= %s (ite (>= %s 0) %s (- %s)))' % (L, pr2, pr2, pr2))
        self.gc[key] = L
        return L

    def divrem(self, a, b, signed, t):
        A, B = self.val(a, signed), self.val(b, signed)
        key = ('d', A, B)
        if key in self.dv: return self.dv[key]
        sa, sb = self.strip(a), self.strip(b)
        res = None
        if sb.op == 'gcd':
            for i in (0, 1):
                if self.val(sb.args[i], sb.p[i]) == A:
                    g = self.gcdn(sb.args[0], sb.args[1], sb.p)
                    res = (g[1 + i], '0')
        if res is None and sa.op == 'lcm':
            for i in (0, 1):
                if self.val(sa.args[i], sa.p[i]) == B:
                    g = self.gcdn(sa.args[0], sa.args[1], sa.p)
                    self.lcmn(sa.args[0], sa.args[1], sa.p)
                    o = g[2 - i]
                    ab = '(ite (>= %s 0) %s (- %s))' % (o, o, o)
                    q = self.fresh('lq')
                    self.axiom('(= %s (ite (< %s 0) (- %s) %s))' % (q, B, ab, ab))
                    res = (q, '0')
        if res is None:
            if isc(b) and b.p and (not signed or (a.sl >= 0 and sval(b) > 0)):
                res = (self.define(t, '(div %s %s)' % (A, B)), self.define(t, '(mod %s %s)' % (A, B)))
            else:
                q, r = self.fresh('q'), self.fresh('r')
                sign = '(and (=> (>= %s 0) (>= %s 0)) (=> (<= %s 0) (<= %s 0)))' % (A, r, A, r)
                nz = '(= %s (+ (* %s %s) %s))' % (A, B, q, r)
                absb = '(ite (>= %s 0) %s (- %s))' % (B, B, B)
                ax = '(and %s %s (< (- %s) %s %s))' % (nz, sign, absb, r, absb)
                known = (b.sl > 0 or b.sh < 0) if signed else b.ul > 0
                self.axiom(ax if known else '(=> (not (= %s 0)) %s)' % (B, ax))
                if signed:
                    m = max(abs(a.sl), abs(a.sh))
                    self.axiom('(<= (- %d) %s %d)' % (m, q, m))
                else:
                    self.axiom('(<= 0 %s %d)' % (q, a.uh))
                res = (q, r)
                # the truncated quotient depends on the ratio only
                for (A2, B2, q2, r2) in self.dvl[:4]:
                    self.axiom('(=> (and (= (* %s %s) (* %s %s)) (not (= %s 0)) (not (= %s 0))) (and (= %s %s) (= (* %s %s) (* %s %s))))' % (
                        A, B2, A2, B, B, B2, q, q2, r, B2, r2, B))
                self.dvl.append((A, B, q, r))
        self.dv[key] = res
        return res

    # -------------------------------------------------- booleans
    def B(self, t):
        if t is TRUE: return 'true'
        if t is FALSE: return 'false'
        return self.get(t)[1]

    def lowb(self, t):
        op = t.op
        if op == 'true': return 'true'
        if op == 'false': return 'false'
        if op == 'var':
            self.lines.append('(declare-const %s Bool)' % t.p); return t.p
        if op == 'not': return '(not %s)' % self.B(t.args[0])
        if op in ('and', 'or'): return self.define(t, '(%s %s)' % (op, ' '.join(self.B(x) for x in t.args)), 'Bool')
        if op == 'bxor': return self.define(t, '(not (= %s %s))' % (self.B(t.args[0]), self.B(t.args[1])), 'Bool')
        if op == 'eq':
            a, b = t.args
            if a.w < 0: raise IntUnsupported('float identity')
            ka = 'B' if isc(a) else self.get(a)[0]
            kb = 'B' if isc(b) else self.get(b)[0]
            if 'U' in (ka, kb): return '(= %s %s)' % (self.U(a), self.U(b))
            return '(= %s %s)' % (self.S(a), self.S(b))
        if op == 'slt': return '(< %s %s)' % (self.S(t.args[0]), self.S(t.args[1]))
        if op == 'ult': return '(< %s %s)' % (self.U(t.args[0]), self.U(t.args[1]))
        if op in ('saddo', 'ssubo', 'smulo'):
            o = {'saddo': '+', 'ssubo': '-', 'smulo': '*'}[op]
            a, b = t.args
            e = self.define(t, '(%s %s %s)' % (o, self.S(a), self.S(b)))
            h = 1 << (a.w - 1)
            return '(or (< %s (- %d)) (> %s %d))' % (e, h, e, h - 1)
        if op in ('uaddo', 'umulo'):
            o = '+' if op == 'uaddo' else '*'
            a, b = t.args
            return '(>= (%s %s %s) %d)' % (o, self.U(a), self.U(b), 1 << a.w)
        if op == 'lcmo':
            a, b = t.args
            sa, sb, w, sg = t.p
            L = self.lcmn(a, b, (sa, sb))
            return '(> %s %d)' % (L, (1 << (w - 1)) - 1 if sg else (1 << w) - 1)
        if op in ('foeq', 'funo', 'folt', 'fole'):
            return self.lowfc(t)
        raise IntUnsupported(op)

    # -------------------------------------------------- floats: exact integers and rounded quotients of them
    PREC = {-32: 24, -64: 53, -80: 64}
    def lowf(self, t):
        if t.op in ('sitofp', 'uitofp'):
            a = t.args[0]
            s = t.op == 'sitofp'
            m = max(abs(a.sl), abs(a.sh)) if s else a.uh
            if m > 1 << self.PREC[t.w]:
                # exact up to 2^precision, otherwise some other integer (an over-approximation)
                v = self.val(a, s); r = self.fresh('i2f', 'Int'); p = 1 << self.PREC[t.w]
                self.lines.append('(assert (=> (and (<= (- %d) %s) (<= %s %d)) (= %s %s)))' % (p, v, v, p, r, v))
                self.lines.append('(assert (= (= %s 0) (= %s 0)))' % (r, v))
                return ('F', (r, '1'))
            return ('F', (self.val(a, s), '1'))
        if t.op == 'fconst' and t.w != -80:
            x = tm._f(t.p, t.w)
            if x == x and abs(x) != float('inf') and x == int(x) and not (x == 0 and t.p): return ('F', (lit(int(x)), '1'))
        if t.op == 'fpext':
            return self.get(t.args[0]) if self.get(t.args[0])[1][1] == '1' else self._nofp(t)
        if t.op == 'fdiv':
            (_, (a, ad)), (_, (b, bd)) = self.get(t.args[0]), self.get(t.args[1])
            if ad != '1' or bd != '1': raise IntUnsupported('fdiv of rounded values')
            return ('F', (a, b))
        raise IntUnsupported(t.op)
    def _nofp(self, t): raise IntUnsupported('fpext of a rounded value')
    def lowfc(self, t):
        (_, (a, b)), (_, (c, d)) = self.get(t.args[0]), self.get(t.args[1])
        if t.op == 'funo':
            return '(or (and (= %s 0) (= %s 0)) (and (= %s 0) (= %s 0)))' % (a, b, c, d)
        if t.op == 'foeq':
            if t.args[0] is t.args[1]: return '(not (and (= %s 0) (= %s 0)))' % (a, b)
            f = self.fresh('rnd', 'Bool')
            # distinct quotients whose cross product is small do not round to the same value
            p = 1 << (self.PREC[t.args[0].w] - 2)
            self.axiom('(=> (and (not (= %s 0)) (not (= %s 0)) (< (- %d) (* %s %s) %d)) (not %s))' % (b, d, p, a, d, p, f))
            return '(ite (and (= %s 0) (= %s 0)) false (ite (and (= %s 0) (= %s 0)) false (ite (and (not (= %s 0)) (not (= %s 0)) (= (* %s %s) (* %s %s))) true %s)))' % (
                a, b, c, d, b, d, a, d, c, b, f)
        raise IntUnsupported(t.op)

    def script(self, cond_strs, values=()):
        out = ['(set-option :produce-models true)'] + self.lines
        out += ['(assert %s)' % c for c in cond_strs]
        return '\n'.join(out) + '\n(check-sat)\n'
