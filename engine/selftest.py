"""Differential self-test of the term algebra and of both lowerings: random terms, random inputs.

For every term t and input the value computed by terms.evaluate must be the only value either lowering allows."""
import sys, os, random, time, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms as tm, lower_bv, lower_int, z3
sys.setrecursionlimit(100000)

def gen(r, vs, depth, w):
    """a random term of width w and, in step, its reference value function (built without simplification)"""
    if depth == 0 or r.random() < 0.1:
        c = [v for v in vs if v[0].w == w]
        if c and r.random() < 0.75: t, nm = r.choice(c); return t, lambda e, nm=nm, w=w: e[nm] & ((1 << w) - 1)
        k = r.choice([0, 1, 2, 3, 4, 8, -1, -2, 7, 10, 1 << (w - 1), r.getrandbits(w)]) & ((1 << w) - 1)
        return tm.const(k, w), lambda e, k=k: k
    m = (1 << w) - 1
    S = lambda v, w=w: tm.to_s(v, w)
    op = r.choice(['add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'bvand', 'bvor', 'bvxor', 'shl', 'lshr', 'ashr', 'gcd', 'gcd', 'lcm',
                   'ite', 'zext', 'sext', 'trunc', 'p2', 'qgcd', 'high'])
    if op == 'ite':
        a, fa = gen(r, vs, depth - 1, w); b, fb = gen(r, vs, depth - 1, w); c, fc = cond(r, vs, depth - 1)
        return tm.ite(c, a, b), lambda e: fa(e) if fc(e) else fb(e)
    if op in ('zext', 'sext') and w > 8:
        a, fa = gen(r, vs, depth - 1, w // 2)
        if op == 'zext': return tm.zext(a, w), fa
        return tm.sext(a, w), lambda e: tm.to_s(fa(e), w // 2) & m
    if op == 'trunc' and w < 32:
        a, fa = gen(r, vs, depth - 1, w * 2)
        return tm.trunc(a, w), lambda e: fa(e) & m
    if op == 'high' and w < 32:
        a, fa = gen(r, vs, depth - 1, w * 2)
        return tm.extract(a, 2 * w - 1, w), lambda e: fa(e) >> w
    if op == 'p2':
        a, fa = gen(r, vs, depth - 1, w)
        k = w // 4
        a = tm.bvand(a, tm.const(k - 1, w))
        return tm.shl(tm.const(1, w), a), lambda e: 1 << (fa(e) & (k - 1))
    if op == 'qgcd':
        a, fa = gen(r, vs, depth - 1, w); b, fb = gen(r, vs, depth - 1, w)
        g = tm.gcd(a, b, True, True, w)
        import math
        def f(e):
            x, y = S(fa(e)), S(fb(e))
            if x == -(1 << (w - 1)) or y == -(1 << (w - 1)) or math.gcd(x, y) == 0: raise tm.EvalUndef('q')
            return tm.tdiv(x, math.gcd(x, y)) & m
        return tm.sdiv(a, g), f
    if op in ('zext', 'sext', 'trunc', 'high'): op = 'add'
    a, fa = gen(r, vs, depth - 1, w); b, fb = gen(r, vs, depth - 1, w)
    import math
    def ev(e):
        x, y = fa(e), fb(e)
        if op == 'add': return (x + y) & m
        if op == 'sub': return (x - y) & m
        if op == 'mul': return (x * y) & m
        if op in ('udiv', 'urem'):
            if y == 0: raise tm.EvalUndef('d')
            return x // y if op == 'udiv' else x % y
        if op in ('sdiv', 'srem'):
            x, y = S(x), S(y)
            if y == 0 or (y == -1 and x == -(1 << (w - 1))): raise tm.EvalUndef('d')
            return (tm.tdiv(x, y) if op == 'sdiv' else tm.trem(x, y)) & m
        if op == 'bvand': return x & y
        if op == 'bvor': return x | y
        if op == 'bvxor': return x ^ y
        if op in ('shl', 'lshr', 'ashr'):
            if y >= w: raise tm.EvalUndef('s')
            return {'shl': (x << y) & m, 'lshr': x >> y, 'ashr': (S(x) >> y) & m}[op]
        x, y = S(x), S(y)
        if -(1 << (w - 1)) in (x, y): raise tm.EvalUndef('g')
        if op == 'gcd': return math.gcd(x, y)
        l = math.lcm(x, y)
        if l >= 1 << (w - 1): raise tm.EvalUndef('l')
        return l
    if op == 'gcd': t = tm.gcd(a, b, True, True, w)
    elif op == 'lcm': t = tm.lcm(a, b, True, True, w, True)
    else: t = getattr(tm, op)(a, b)
    return t, ev
def cond(r, vs, depth):
    w = r.choice([8, 16, 32])
    a, fa = gen(r, vs, depth, w); b, fb = gen(r, vs, depth, w)
    S = lambda v: tm.to_s(v, w)
    h = 1 << (w - 1)
    k = r.choice(['eq', 'slt', 'ult', 'saddo', 'ssubo', 'smulo', 'uaddo', 'umulo', 'and', 'not', 'lcmo'])
    import math
    if k in ('and', 'not') and depth:
        c, fc = cond(r, vs, depth - 1); d, fd = cond(r, vs, depth - 1)
        if k == 'not': return tm.not_(c), lambda e: not fc(e)
        return tm.and_(c, d), lambda e: fc(e) and fd(e)
    def lc(e):
        x, y = S(fa(e)), S(fb(e))
        if -h in (x, y): raise tm.EvalUndef('g')
        return math.lcm(x, y) >= h
    R = {'eq': (tm.eq, lambda e: fa(e) == fb(e)), 'slt': (tm.slt, lambda e: S(fa(e)) < S(fb(e))), 'ult': (tm.ult, lambda e: fa(e) < fb(e)),
         'saddo': (tm.saddo, lambda e: not -h <= S(fa(e)) + S(fb(e)) < h), 'ssubo': (tm.ssubo, lambda e: not -h <= S(fa(e)) - S(fb(e)) < h),
         'smulo': (tm.smulo, lambda e: not -h <= S(fa(e)) * S(fb(e)) < h), 'uaddo': (tm.uaddo, lambda e: fa(e) + fb(e) >= 2 * h),
         'umulo': (tm.umulo, lambda e: fa(e) * fb(e) >= 2 * h), 'lcmo': (lambda x, y: tm.lcmo(x, y, True, True, w, True), lc)}
    f, g = R.get(k, R['eq'])
    return f(a, b), g

def main(n, seed):
    r = random.Random(seed)
    st = dict(terms=0, evals=0, bv=0, int=0, skipped=0)
    bad = 0
    for it in range(n):
        tm.reset(); lower_bv._P2.clear()
        vs = []
        for i in range(3):
            w = r.choice([8, 16, 32])
            h = 1 << (w - 1)
            lo, hi = r.choice([(-h, h - 1), (0, h - 1), (-5, 5), (0, 1), (1, 100), (-h + 1, -1), (-100, 3)])
            v = tm.var('in%d' % i, w, lo, hi)
            vs.append((v, 'in%d' % i, lo, hi))
        pv = [(v, nm) for v, nm, _, _ in vs]
        w = r.choice([8, 16, 32])
        t, f = gen(r, pv, r.choice([1, 2, 3, 4]), w)
        st['terms'] += 1
        lowered = {}
        for k in range(3):
            env = {nm: r.choice([lo, hi, r.randint(lo, hi), max(lo, min(hi, r.randint(-9, 9)))]) for _, nm, lo, hi in vs}
            try: want = f(env)
            except tm.EvalUndef: st['skipped'] += 1; continue
            try: got = tm.evaluate([t], env)[0]
            except tm.EvalUndef: st['skipped'] += 1; continue
            st['evals'] += 1
            def fail(what):
                nonlocal bad
                bad += 1
                print('MISMATCH', what, 'env', env, 'want', want, 'got', got, 'term', tm.show(t, 9)[:600])
            if got != want: fail('evaluate'); continue
            s = tm.to_s(got, w)
            if not (t.sl <= s <= t.sh and t.ul <= got <= t.uh): fail('interval [%d,%d] [%d,%d]' % (t.sl, t.sh, t.ul, t.uh))
            if k: continue
            goal = tm._mk('eq', 0, (t, tm._mk('var', w, (), 'res'))) if False else None
            try:
                bl = lower_bv.BVLower(); e = bl.get(t)
                so = z3.SolverFor('QF_BV'); so.set('timeout', 3000)
                for x, nm in pv: so.add(bl.get(x) == z3.BitVecVal(env[nm], x.w))
                for x in bl.side: so.add(x)
                so.push(); so.add(e != got); q1 = str(so.check()); so.pop()
                so.add(e == got); q2 = str(so.check())
                if q1 == 'sat' or q2 == 'unsat': fail('bit-vectors %s %s' % (q1, q2))
                st['bv'] += 1
            except lower_bv.BVUnsupported: st['skipped'] += 1
            try:
                mod = set()
                while True:                         # operations that wrap are lowered with a modulus, as the driver does
                    il = lower_int.IntLower(mod); e = il.U(t)
                    new = set(il.assumed) - mod
                    if not new: break
                    mod |= new
                eqs = ['(= %s %s)' % (il.S(x), lower_int.lit(env[nm])) for x, nm in pv]
                res = []
                for c in ('(not (= %s %d))' % (e, got), '(= %s %d)' % (e, got)):
                    p = subprocess.run(['z3-new', '-in', '-T:3'], input=il.script(eqs + [c]), capture_output=True, text=True)
                    res.append(p.stdout.split('\n')[0])
                if any('error' in x for x in res): fail('int error %s' % res)
                if res[0] == 'sat' or res[1] == 'unsat': fail('integers %s' % res)
                st['int'] += 1
            except lower_int.IntUnsupported: st['skipped'] += 1
    print('self-test: %s, %d mismatches' % (st, bad))
    return 1 if bad else 0
if __name__ == '__main__':
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 300, int(sys.argv[2]) if len(sys.argv) > 2 else 1))
