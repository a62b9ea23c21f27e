"""Symbolic executor for clang -O0 LLVM IR with state merging.

Produces obligations: (kind, site, condition) where `condition` is a boolean term that is satisfiable
exactly when the real code can reach the bad event for some input within the bounds."""
import heapq, math
import terms as tm
from terms import T, TRUE, FALSE, and_, or_, not_, ite, const, isc
import llir

class Unsupported(Exception): pass
class NeedCase(Exception):
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
class Limit(Exception): pass

class Ptr:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Ptr%r' % (self.alts,)
NULL = Ptr(((TRUE, None, const(0, 64)),))
def mkptr(obj, off=0): return Ptr(((TRUE, obj, off if isinstance(off, T) else const(off, 64)),))

class Obj:
    __slots__ = ('size', 'cells', 'name', 'const')
    def __init__(self, size, cells, name, const=False):
        self.size, self.cells, self.name, self.const = size, cells, name, const

class State:
    __slots__ = ('guard', 'mem')
    def __init__(self, guard, mem): self.guard, self.mem = guard, mem
    def fork(self, c):
        """new state with extra condition, or None when trivially infeasible"""
        g = add_guard(self.guard, c)
        return None if g is None else State(g, dict(self.mem))

def add_guard(guard, c):
    if c is TRUE: return guard
    if c is FALSE: return None
    ids = {x.id for x in guard}
    if c.id in ids: return guard
    if not_(c).id in ids: return None
    cs = list(c.args) if c.op == 'and' else [c]
    out = list(guard)
    for x in cs:
        if x.id in ids: continue
        if not_(x).id in ids: return None
        if x.op == 'or':
            keep = [y for y in x.args if not_(y).id not in ids]
            if any(y.id in ids for y in x.args): continue
            if not keep: return None
            if len(keep) < len(x.args):
                x = or_(*keep)
                if x is TRUE: continue
                if x is FALSE: return None
        out.append(x); ids.add(x.id)
    return tuple(out)

TRAPKIND = {0: 'signed add overflow', 3: 'division by zero or overflow', 12: 'signed multiply overflow', 21: 'signed subtract overflow',
            20: 'shift out of bounds', 5: 'float cast overflow', 8: 'missing return', 1: 'builtin unreachable', 13: 'negate overflow',
            18: 'out of bounds', 10: 'load of invalid value', 22: 'type mismatch/null', 16: 'nonnull', 19: 'pointer overflow'}

def vmerge(c, a, b):
    """value: a if c else b"""
    if a is b: return a
    if a is None: return b
    if b is None: return a
    if isinstance(a, T) and isinstance(b, T):
        if a.w != b.w: raise Unsupported('merge of widths %d %d' % (a.w, b.w))
        return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return pmerge(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(vmerge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, T) and isc(b) and b.p == 0: return pmerge(c, a, NULL)
    if isinstance(b, Ptr) and isinstance(a, T) and isc(a) and a.p == 0: return pmerge(c, NULL, b)
    raise Unsupported('merge of %r and %r' % (a, b))

def pmerge(c, a, b):
    d = {}
    order = []
    for cc, pp in ((c, a), (not_(c), b)):
        for k, o, off in pp.alts:
            k = and_(cc, k)
            if k is FALSE: continue
            if o in d:
                k0, off0 = d[o]
                d[o] = (or_(k0, k), ite(k0, off0, off))
            else:
                d[o] = (k, off); order.append(o)
    if len(order) == 1: return Ptr(((TRUE, order[0], d[order[0]][1]),))
    return Ptr(tuple((d[o][0], o, d[o][1]) for o in order))

def _loops(order, succ):
    """loop nest: block -> list of headers (outermost first), by recursive SCC decomposition"""
    nest = {b: [] for b in order}
    rpo_index = {b: i for i, b in enumerate(order)}
    def sccs(nodes, removed):
        nodes = set(nodes); idx, low, st, on, res, cnt = {}, {}, [], set(), [], [0]
        for root in [n for n in order if n in nodes]:
            if root in idx: continue
            work = [(root, iter(succ[root]))]
            idx[root] = low[root] = cnt[0]; cnt[0] += 1; st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in nodes or (v, w) in removed: continue
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter(succ[w]))); adv = True; break
                    elif w in on: low[v] = min(low[v], idx[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v: break
                    res.append(comp)
        return res
    def rec(nodes, removed):
        for comp in sccs(nodes, removed):
            cs = set(comp)
            if len(comp) == 1 and not any(w == comp[0] and (comp[0], w) not in removed for w in succ[comp[0]]): continue
            h = min(comp, key=lambda b: rpo_index[b])
            for b in comp: nest[b].append(h)
            rem = set(removed)
            for b in comp:
                if h in succ[b]: rem.add((b, h))
            rec(comp, rem)
    rec(order, set())
    return nest

class FnInfo:
    def __init__(self, f):
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t[0] == 'br': s = [t[1]]
            elif t[0] == 'cbr': s = [t[2], t[3]]
            elif t[0] == 'switch': s = [t[3]] + [x[1] for x in t[4]]
            elif t[0] == 'call' and t[5]: s = [t[5]]
            else: s = []
            succ[b] = s
        entry = f.order[0]
        seen, post = set(), []
        st = [(entry, iter(succ[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                st.pop(); post.append(b)
        order = post[::-1]
        self.rpo = {b: i for i, b in enumerate(order)}
        self.nest = _loops(order, {b: [s for s in succ[b] if s in seen] for b in order})
        self.entry = entry
        # registers used outside their defining block
        defs, cross = {}, set()
        for b in order:
            for ins in f.blocks[b]:
                d = ins[1] if len(ins) > 1 and isinstance(ins[1], str) and ins[1].startswith('%') and ins[0] not in ('br',) else None
                if d: defs[d] = b
        def uses(x, acc):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'r': acc.add(x[1])
                else:
                    for y in x: uses(y, acc)
            elif isinstance(x, list):
                for y in x: uses(y, acc)
        for b in order:
            for ins in f.blocks[b]:
                if ins[0] == 'phi':
                    continue          # evaluated on the edge, before merging
                acc = set(); uses(ins[1:], acc)
                for r in acc:
                    if defs.get(r) != b: cross.add(r)
        self.cross = cross

class Exec:
    def __init__(self, mod, cfg):
        self.m = mod
        self.cfg = cfg
        self.oblig = []            # (kind, site, cond term)
        self.ntriv = 0             # obligations settled by term simplification (interval reasoning)
        self.outs = []             # (guard, term)
        self.asserted = 0
        self.wraps = {}            # term id -> (term, [guards])
        self.nobj = 0
        self.fresh = 0
        self.inputs = []           # (name, lo, hi, width)
        self.cases = list(cfg.get('cases', ()))
        self.case_i = 0
        self.globs = {}
        self.info = {}
        self.fns_used = set()
        self.nstates = 0
        self.nsteps = 0
        self.nedges = 0
        self.depth = {}
        self.feasible = cfg.get('feasible')       # callback(guard tuple) -> bool
        self.merge = cfg.get('merge', True)
        self.max_iter = cfg.get('max_iter', 200)
        self.intercept_gcd = cfg.get('intercept_gcd', True)
        self.lo_case = None
        self.scale = cfg.get('scale')             # optional (lo,hi) clamp for ranges
        self.tokens = []

    # -------------------------------------------------------------- obligations
    def bad(self, st, kind, site, cond=TRUE):
        c = and_(*(st.guard + (cond,)))
        if c is FALSE: self.ntriv += 1; return
        self.oblig.append((kind, site, c))

    # -------------------------------------------------------------- memory
    def new_obj(self, st, size, cells, name, const_=False):
        self.nobj += 1
        o = 'o%d' % self.nobj
        st.mem[o] = Obj(size, cells, name, const_)
        return o

    def glob(self, st, name):
        o = self.globs.get(name)
        if o is None:
            g = self.m.glob(name)
            if g is None:
                if name in self.m.fns or name in self.m.decls:
                    return mkptr('fn:' + name)
                raise Unsupported('global ' + name)
            t, init, cst = g
            o = 'g:' + name
            sz = self.m.size(t) if not (init is None) else 0
            self.globs[name] = o
            ob = Obj(sz, {}, name, cst)
            self.globs[o] = ob
            st.mem[o] = ob
            if init is not None:
                self.init_cells(st, ob, 0, t, init)
        if o not in st.mem: st.mem[o] = self.globs[o]
        return mkptr(o)

    def init_cells(self, st, ob, off, t, v):
        t = self.m.resolve(t)
        if v[0] == 'undef': return
        if t.k == 'arr':
            es = self.m.size(t.el)
            if v[0] == 'str':
                raw = v[1][2:-1]; bs = []; i = 0
                while i < len(raw):
                    if raw[i] == '\\':
                        if raw[i + 1] == '\\': bs.append(92); i += 2
                        else: bs.append(int(raw[i + 1:i + 3], 16)); i += 3
                    else: bs.append(ord(raw[i])); i += 1
                for i, b in enumerate(bs): ob.cells[off + i] = (1, const(b, 8))
            elif v[0] == 'zero':
                for i in range(t.n): self.init_cells(st, ob, off + i * es, t.el, v)
            else:
                for i, (et, ev) in enumerate(v[1]): self.init_cells(st, ob, off + i * es, et, ev)
            return
        if t.k == 'struct':
            offs = self.m.layout(t)[2]
            for i, e in enumerate(t.el):
                ev = v if v[0] == 'zero' else v[1][i][1]
                self.init_cells(st, ob, off + offs[i], e, ev)
            return
        try:
            ob.cells[off] = (self.m.size(t), self.to_mem(self.operand(st, {}, t, v), t))
        except Unsupported:
            pass

    def to_mem(self, v, t):
        if isinstance(v, T) and t.k == 'int':
            sz = self.m.size(t) * 8
            if v.w == 0: return tm.zext(v, 8)
            if v.w < sz: return tm.zext(v, sz)
        return v

    def store(self, st, p, t, v, site):
        t = self.m.resolve(t)
        if t.k in ('struct', 'arr'):
            if v is None: return
            if t.k == 'struct':
                offs = self.m.layout(t)[2]
                for i, e in enumerate(t.el): self.store(st, self.padd(p, offs[i]), e, v[i], site)
            else:
                es = self.m.size(t.el)
                for i in range(t.n): self.store(st, self.padd(p, i * es), t.el, v[i], site)
            return
        sz = self.m.size(t)
        v = self.to_mem(v, t)
        multi = len(p.alts) > 1
        for c, o, off in p.alts:
            if o is None or o not in st.mem:
                self.bad(st, 'null or dangling store', site, c); continue
            ob = st.mem[o]
            nc = dict(ob.cells)
            if isc(off):
                k = tm.sval(off)
                if k < 0 or k + sz > ob.size:
                    self.bad(st, 'out-of-bounds store', site, c); continue
                old = self.read_cell(ob, k, sz, v) if multi else None
                self.write_cell(nc, k, sz, v if not multi else vmerge(c, v, old))
            else:
                valid = []
                for k in range(0, ob.size - sz + 1):
                    e = tm.eq(off, const(k, 64))
                    if e is FALSE: continue
                    if k % sz and sz > 1: continue
                    valid.append((k, e))
                self.bad(st, 'out-of-bounds store', site, and_(c, not_(or_(*[e for _, e in valid]))))
                for k, e in valid:
                    old = self.read_cell(ob, k, sz, v)
                    self.write_cell(nc, k, sz, vmerge(and_(c, e), v, old))
            st.mem[o] = Obj(ob.size, nc, ob.name, ob.const)

    def write_cell(self, cells, k, sz, v):
        ex = cells.get(k)
        if ex is None or ex[0] != sz:
            for j in list(cells):
                s, x = cells[j]
                if j < k + sz and k < j + s:
                    del cells[j]
                    if isinstance(x, T) and x.w != 0 and (j < k or j + s > k + sz):
                        xb = tm.bitsof(x) if x.w < 0 else x
                        for b in range(s):
                            if not (k <= j + b < k + sz):
                                cells[j + b] = (1, tm.extract(xb, 8 * b + 7, 8 * b))
        if v is None: cells.pop(k, None)
        else: cells[k] = (sz, v)

    def read_cell(self, ob, k, sz, like=None):
        ex = ob.cells.get(k)
        if ex is not None and ex[0] == sz: return ex[1]
        # covered by a larger cell
        for j, (s, x) in ob.cells.items():
            if j <= k and k + sz <= j + s and isinstance(x, T):
                xb = tm.bitsof(x) if x.w < 0 else x
                return tm.extract(xb, 8 * (k - j + sz) - 1, 8 * (k - j))
        # assembled from smaller cells
        parts, pos, anyc = [], k, False
        while pos < k + sz:
            c = ob.cells.get(pos)
            if c is not None and pos + c[0] <= k + sz:
                if not isinstance(c[1], T): return None
                parts.append(tm.bitsof(c[1]) if c[1].w < 0 else c[1]); pos += c[0]; anyc = True
            else:
                hit = None
                for j, (s, x) in ob.cells.items():
                    if j <= pos < j + s and isinstance(x, T): hit = (j, s, x)
                if hit:
                    j, s, x = hit
                    e = min(j + s, k + sz)
                    xb = tm.bitsof(x) if x.w < 0 else x
                    parts.append(tm.extract(xb, 8 * (e - j) - 1, 8 * (pos - j))); pos = e; anyc = True
                else:
                    self.fresh += 1
                    parts.append(tm.var('undef%d' % self.fresh, 8)); pos += 1
        if not anyc: return None
        r = parts[0]
        for x in parts[1:]: r = tm.concat(x, r)
        return r

    def load(self, st, p, t, site):
        t = self.m.resolve(t)
        if t.k == 'struct':
            offs = self.m.layout(t)[2]
            return tuple(self.load(st, self.padd(p, offs[i]), e, site) for i, e in enumerate(t.el))
        if t.k == 'arr':
            es = self.m.size(t.el)
            return tuple(self.load(st, self.padd(p, i * es), t.el, site) for i in range(t.n))
        sz = self.m.size(t)
        res = None
        first = True
        for c, o, off in reversed(p.alts):
            if o is None or o not in st.mem:
                self.bad(st, 'null or dangling load', site, c); continue
            ob = st.mem[o]
            if isc(off):
                k = tm.sval(off)
                if k < 0 or k + sz > ob.size:
                    self.bad(st, 'out-of-bounds load', site, c); continue
                v = self.from_mem(self.read_cell(ob, k, sz), t)
            else:
                v = None; valid = []
                for k in range(0, ob.size - sz + 1):
                    e = tm.eq(off, const(k, 64))
                    if e is FALSE: continue
                    x = self.read_cell(ob, k, sz)
                    if x is None: continue
                    valid.append(e)
                    x = self.from_mem(x, t)
                    v = x if v is None else vmerge(e, x, v)
                self.bad(st, 'out-of-bounds load', site, and_(c, not_(or_(*valid))))
            if v is None: continue
            res = v if res is None else vmerge(c, v, res)
        if res is None: res = self.undef(t)
        return res

    def from_mem(self, v, t):
        if v is None: return None
        if isinstance(v, T):
            if t.k == 'int':
                if v.w < 0: v = tm.bitsof(v)
                if v.w > max(t.n, 1) or (t.n == 1 and v.w): v = tm.trunc(v, 0 if t.n == 1 else t.n)
                return v
            if t.k == 'ptr':
                if isc(v) and v.p == 0: return NULL
                raise Unsupported('load pointer from integer')
            w = {'f32': -32, 'f64': -64, 'f80': -80}[t.k]
            return v if v.w == w else tm.fbits(v, w)
        return v

    def undef(self, t):
        t = self.m.resolve(t)
        self.fresh += 1
        if t.k == 'int':
            return tm.var('undef%d' % self.fresh, 0 if t.n == 1 else t.n)
        if t.k == 'ptr': return NULL
        if t.k == 'struct': return tuple(self.undef(e) for e in t.el)
        if t.k == 'arr': return tuple(self.undef(t.el) for _ in range(t.n))
        w = {'f32': -32, 'f64': -64, 'f80': -80}[t.k]
        return tm.fbits(tm.var('undef%d' % self.fresh, -w), w)

    def padd(self, p, k):
        if isinstance(k, int):
            if k == 0: return p
            k = const(k, 64)
        return Ptr(tuple((c, o, tm.add(off, k)) for c, o, off in p.alts))

    # -------------------------------------------------------------- operands
    def operand(self, st, regs, t, v):
        k = v[0]
        if k == 'r':
            try: return regs[v[1]]
            except KeyError: raise Unsupported('register %s undefined' % v[1])
        t = self.m.resolve(t)
        if k == 'c':
            if t.n == 1: return tm.boolc(v[1] & 1)
            return const(v[1], t.n)
        if k == 'g': return self.glob(st, v[1])
        if k == 'null': return NULL
        if k == 'undef': return self.undef(t)
        if k == 'zero':
            if t.k == 'int': return const(0, t.n) if t.n > 1 else FALSE
            if t.k == 'ptr': return NULL
            if t.k == 'struct': return tuple(self.operand(st, regs, e, v) for e in t.el)
            if t.k == 'arr': return tuple(self.operand(st, regs, t.el, v) for _ in range(t.n))
            return tm.fconst(0, {'f32': -32, 'f64': -64, 'f80': -80}[t.k])
        if k == 'f':
            s = v[1]
            if s.startswith('0xK'): return tm.fconst(int(s[3:], 16), -80)
            if s.startswith('0x'): bits = int(s, 16)
            else:
                import struct
                bits = struct.unpack('<Q', struct.pack('<d', float(s)))[0]
            if t.k == 'f64': return tm.fconst(bits, -64)
            if t.k == 'f32': return tm.fconst(tm._fb(tm._f(bits, -64), -32), -32)
        if k == 'agg': return tuple(self.operand(st, regs, et, ev) for et, ev in v[1])
        if k == 'gep': return self.gep(st, regs, v[1], self.operand(st, regs, llir.PTR, v[2]), v[3])
        if k == 'meta': return None
        raise Unsupported('operand %r' % (v,))

    def gep(self, st, regs, t, base, idx):
        off = 0; sym = None
        cur = t
        for n, (it, iv) in enumerate(idx):
            x = self.operand(st, regs, it, iv)
            if n == 0: sz = self.m.size(cur)
            else:
                cur = self.m.resolve(cur)
                if cur.k == 'struct':
                    off += self.m.layout(cur)[2][tm.sval(x)]; cur = cur.el[tm.sval(x)]; continue
                cur = cur.el; sz = self.m.size(cur)
            if isinstance(x, Ptr): raise Unsupported('gep by pointer')
            x = tm.sext(x, 64) if x.w < 64 else x
            d = tm.mul(x, const(sz, 64))
            sym = d if sym is None else tm.add(sym, d)
        k = const(off, 64)
        if sym is not None: k = tm.add(sym, k)
        return self.padd(base, k)

    # -------------------------------------------------------------- calls
    def call(self, name, args, st, site):
        """returns list of (state, value)"""
        r = self.builtin(name, args, st, site)
        if r is not NotImplemented: return r
        f = self.m.fn(name)
        if f is None: raise Unsupported('external function %s' % name)
        self.fns_used.add(name)
        d = self.depth.get(name, 0)
        if d > self.cfg.get('max_depth', 70): raise Limit('recursion depth in ' + name)
        if d >= 3 and self.feasible and not self.feasible(st.guard): return []
        self.depth[name] = d + 1
        try:
            return self.run_fn(f, args, st)
        finally:
            self.depth[name] = d

    def run_fn(self, f, args, st):
        inf = self.info.get(f.name)
        if inf is None: inf = self.info[f.name] = FnInfo(f)
        regs = {}
        allocas = []
        for (t, nm, at), v in zip(f.params, args):
            if 'byval' in at:
                bt = at['byval']
                o = self.new_obj(st, self.m.size(bt), {}, nm)
                self.store(st, mkptr(o), bt, self.load_raw(st, v, bt), f.name)
                allocas.append(o); v = mkptr(o)
            regs[nm] = v
        pend, heap, ctr = {}, [], [0]
        def push(key, st2, regs2):
            if key in pend: pend[key].append((st2, regs2))
            else:
                pend[key] = [(st2, regs2)]; heapq.heappush(heap, key)
        def key_of(b, iters):
            ks = []
            for h in inf.nest[b]: ks += [inf.rpo[h], iters.get(h, 0)]
            ks.append(inf.rpo[b])
            return tuple(ks)
        byrpo = {i: b for b, i in inf.rpo.items()}
        rets = []
        push(key_of(inf.entry, {}), st, regs)
        while heap:
            key = heapq.heappop(heap)
            lst = pend.pop(key)
            b = byrpo[key[-1]]
            hs = inf.nest[b]
            iters = {h: key[2 * i + 1] for i, h in enumerate(hs)}
            if self.merge and len(lst) > 1: lst = [self.merge_states(lst, inf.cross)]
            for s, r in lst:
                self.nstates += 1
                self.run_block(f, inf, b, iters, s, r, push, key_of, rets, allocas)
                if self.nsteps > self.cfg.get('max_steps', 3000000): raise Limit('step limit')
        if self.merge and len(rets) > 1:
            s, r = self.merge_states([(s, {'ret': v}) for s, v in rets], None)
            rets = [(s, r.get('ret'))]
        for s, _ in rets:
            for o in allocas: s.mem.pop(o, None)
        return rets

    def load_raw(self, st, p, t):
        return self.load(st, p, t, 'byval')

    def merge_states(self, lst, cross):
        gs = [s.guard for s, _ in lst]
        n = 0
        m = min(map(len, gs))
        while n < m and all(g[n] is gs[0][n] for g in gs): n += 1
        prefix = gs[0][:n]
        sels = [and_(*g[n:]) for g in gs]
        guard = prefix
        d = or_(*sels)
        if d is not TRUE: guard = add_guard(prefix, d) or (prefix + (d,))
        # values: fold from the last
        mem = dict(lst[-1][0].mem)
        regs = dict(lst[-1][1])
        for (s, r), c in zip(reversed(lst[:-1]), reversed(sels[:-1])):
            for o, ob in s.mem.items():
                other = mem.get(o)
                if other is ob: continue
                if other is None: mem[o] = ob; continue
                cells = {}
                if ob.cells is other.cells: continue
                for k in set(ob.cells) | set(other.cells):
                    x, y = ob.cells.get(k), other.cells.get(k)
                    if x is y: cells[k] = x; continue
                    if x is None or y is None:
                        z = x or y
                        # the other side may hold the bytes in another split
                        ox = self.read_cell(ob, k, z[0]) if x is None else x[1]
                        oy = self.read_cell(other, k, z[0]) if y is None else y[1]
                        if ox is None: cells[k] = (z[0], oy); continue
                        if oy is None: cells[k] = (z[0], ox); continue
                        cells[k] = (z[0], self.cellmerge(c, ox, oy)); continue
                    if x[0] != y[0]:
                        sz = max(x[0], y[0])
                        ox, oy = self.read_cell(ob, k, sz), self.read_cell(other, k, sz)
                        cells[k] = (sz, self.cellmerge(c, ox, oy)); continue
                    if x[1] is y[1]: cells[k] = x
                    else: cells[k] = (x[0], self.cellmerge(c, x[1], y[1]))
                # remove cells covered by a larger one
                ks = sorted(cells)
                for k in ks:
                    if k not in cells: continue
                    for j in ks:
                        if j != k and j in cells and k <= j < k + cells[k][0]: del cells[j]
                mem[o] = Obj(ob.size, cells, ob.name, ob.const)
            for k in list(regs):
                if cross is not None and k not in cross: continue
                if k in r: 
                    if regs[k] is not r[k]: regs[k] = vmerge(c, r[k], regs[k])
            for k in r:
                if k not in regs: regs[k] = r[k]
        return State(guard, mem), regs

    def cellmerge(self, c, x, y):
        if isinstance(x, T) and isinstance(y, T) and x.w != y.w:
            if x.w < 0: x = tm.bitsof(x)
            if y.w < 0: y = tm.bitsof(y)
        return vmerge(c, x, y)

    def run_block(self, f, inf, b, iters, st, regs, push, key_of, rets, allocas):
        work = [(0, st, regs)]
        code = f.blocks[b]
        while work:
            i, st, regs = work.pop()
            while True:
                ins = code[i]; op = ins[0]
                self.nsteps += 1
                site = (f.name, b)
                if op == 'phi': i += 1; continue
                if op == 'br':
                    self.edge(f, inf, b, ins[1], iters, st, regs, push, key_of); break
                if op == 'cbr':
                    c = self.operand(st, regs, llir.IntTy(1), ins[1])
                    for cc, tgt in ((c, ins[2]), (not_(c), ins[3])):
                        s2 = st.fork(cc)
                        if s2 is not None: self.edge(f, inf, b, tgt, iters, s2, dict(regs), push, key_of)
                    break
                if op == 'switch':
                    v = self.operand(st, regs, ins[1], ins[2])
                    rest = []
                    byt = {}
                    for cv, tgt in ins[4]:
                        e = tm.eq(v, const(cv, v.w)) if v.w else (v if cv & 1 else not_(v))
                        rest.append(not_(e))
                        byt.setdefault(tgt, []).append(e)
                    dflt = and_(*rest)
                    for tgt, es in byt.items():
                        if tgt == ins[3]: dflt = or_(dflt, *es); continue
                        s2 = st.fork(or_(*es))
                        if s2 is not None: self.edge(f, inf, b, tgt, iters, s2, dict(regs), push, key_of)
                    s2 = st.fork(dflt)
                    if s2 is not None: self.edge(f, inf, b, ins[3], iters, s2, dict(regs), push, key_of)
                    break
                if op == 'ret':
                    rets.append((st, None if ins[2] is None else self.operand(st, regs, ins[1], ins[2]))); break
                if op == 'unreachable':
                    self.bad(st, 'unreachable reached (missing return or undefined control flow)', site); break
                if op == 'dead' or op == 'landingpad': break
                if op == 'call':
                    _, dst, rt, callee, args, normal = ins
                    vals = []
                    for at, av, attrs in args:
                        vals.append(None if av[0] == 'meta' else self.operand(st, regs, at, av))
                    if callee[0] == 'g': name = callee[1]
                    else:
                        fp = regs[callee[1]]
                        if isinstance(fp, Ptr) and len(fp.alts) == 1 and str(fp.alts[0][1]).startswith('fn:'): name = fp.alts[0][1][3:]
                        else: raise Unsupported('indirect call')
                    if name.startswith('@llvm.ubsantrap') or name == '@llvm.trap':
                        k = TRAPKIND.get(vals[0].p, 'trap %d' % vals[0].p) if vals else 'trap'
                        self.bad(st, 'undefined behaviour: ' + k, site); break
                    outs = self.call(name, vals, st, site)
                    first = True
                    nxt = None
                    for k, (s2, v2) in enumerate(outs):
                        r2 = regs if k == len(outs) - 1 else dict(regs)
                        if dst: r2[dst] = v2
                        if normal: self.edge(f, inf, b, normal, iters, s2, r2, push, key_of)
                        elif nxt is None: nxt = (s2, r2)
                        else: work.append((i + 1, s2, r2))
                    if nxt is None: break
                    st, regs = nxt
                    i += 1
                    continue
                self.step(f, ins, st, regs, site, allocas)
                i += 1

    def edge(self, f, inf, b, tgt, iters, st, regs, push, key_of):
        self.nedges += 1
        it2 = {h: iters[h] for h in inf.nest[tgt] if h in iters}
        if tgt in inf.nest[b] :   # back edge to an enclosing header
            it2[tgt] = iters[tgt] + 1
            if self.feasible and it2[tgt] >= self.cfg.get('check_from', 2):
                if not self.feasible(st.guard): return
            if it2[tgt] > self.max_iter:
                self.bad(st, 'UNWIND', (f.name, tgt)); return
        code = f.blocks[tgt]
        if code and code[0][0] == 'phi':
            new = {}
            for ins in code:
                if ins[0] != 'phi': break
                for v, pb in ins[3]:
                    if pb == b: new[ins[1]] = self.operand(st, regs, ins[2], v); break
                else: raise Unsupported('phi without incoming edge')
            regs.update(new)
            # phi results must survive merging
            inf.cross.update(new)
        push(key_of(tgt, it2), st, regs)

    def wrap(self, st, t):
        """remember that a possibly wrapping (unsigned) operation happens under this guard"""
        if t.op in ('add', 'sub', 'mul') and not t.p and not self.in_gcd:
            e = self.wraps.get(t.id)
            if e is None: self.wraps[t.id] = (t, [st.guard])
            elif not any(g is st.guard for g in e[1]): e[1].append(st.guard)
        return t
    in_gcd = False

    BIN = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'sdiv': tm.sdiv, 'udiv': tm.udiv, 'srem': tm.srem, 'urem': tm.urem,
           'and': tm.bvand, 'or': tm.bvor, 'xor': tm.bvxor, 'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr}

    def step(self, f, ins, st, regs, site, allocas):
        op = ins[0]
        if op == 'alloca':
            n = 1 if ins[3] is None else tm.sval(self.operand(st, regs, llir.IntTy(32), ins[3]))
            o = self.new_obj(st, self.m.size(ins[2]) * n, {}, ins[1])
            allocas.append(o)
            regs[ins[1]] = mkptr(o)
        elif op == 'load':
            regs[ins[1]] = self.load(st, self.ptr(st, regs, ins[3]), ins[2], site)
        elif op == 'store':
            self.store(st, self.ptr(st, regs, ins[3]), ins[1], self.operand(st, regs, ins[1], ins[2]), site)
        elif op == 'gep':
            regs[ins[1]] = self.gep(st, regs, ins[2], self.ptr(st, regs, ins[3]), ins[4])
        elif op == 'bin':
            _, dst, o, t, a, b, fl = ins
            a = self.operand(st, regs, t, a); b = self.operand(st, regs, t, b)
            regs[dst] = self.binop(st, o, a, b, site)
        elif op == 'icmp':
            _, dst, pr, t, a, b = ins
            regs[dst] = self.icmp(st, pr, self.operand(st, regs, t, a), self.operand(st, regs, t, b))
        elif op == 'fcmp':
            _, dst, pr, t, a, b = ins
            regs[dst] = self.fcmp(pr, self.operand(st, regs, t, a), self.operand(st, regs, t, b))
        elif op == 'select':
            _, dst, c, t, a, b = ins
            c = self.operand(st, regs, llir.IntTy(1), c)
            regs[dst] = vmerge(c, self.operand(st, regs, t, a), self.operand(st, regs, t, b)) if c not in (TRUE, FALSE) else \
                (self.operand(st, regs, t, a) if c is TRUE else self.operand(st, regs, t, b))
        elif op == 'cast':
            _, dst, o, t, a, t2 = ins
            regs[dst] = self.cast(st, o, self.operand(st, regs, t, a), t, t2)
        elif op == 'extractvalue':
            v = self.operand(st, regs, ins[2], ins[3])
            for k in ins[4]: v = v[k]
            regs[ins[1]] = v
        elif op == 'insertvalue':
            v = self.operand(st, regs, ins[2], ins[3]); e = self.operand(st, regs, ins[4], ins[5])
            def rep(v, idx):
                l = list(v)
                l[idx[0]] = e if len(idx) == 1 else rep(l[idx[0]], idx[1:])
                return tuple(l)
            regs[ins[1]] = rep(v, ins[6])
        elif op == 'fneg':
            v = self.operand(st, regs, ins[2], ins[3])
            regs[ins[1]] = tm.fpop('fneg', v.w, (v,))
        elif op == 'freeze':
            regs[ins[1]] = self.operand(st, regs, ins[2], ins[3])
        else:
            raise Unsupported('%s in %s' % (ins, f.name))

    def ptr(self, st, regs, v):
        p = self.operand(st, regs, llir.PTR, v)
        if not isinstance(p, Ptr): raise Unsupported('not a pointer')
        return p

    def binop(self, st, o, a, b, site):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                    return tm.sub(a.alts[0][2], b.alts[0][2])
                # all alternatives on the same object, or null/null
                res = None
                for ca, oa, fa in a.alts:
                    for cb, ob, fb in b.alts:
                        c = and_(ca, cb)
                        if c is FALSE: continue
                        if oa != ob:
                            self.bad(st, 'undefined behaviour: difference of unrelated pointers', site, c)
                            continue
                        d = tm.sub(fa, fb)
                        res = d if res is None else ite(c, d, res)
                return const(0, 64) if res is None else res
            raise Unsupported('pointer arithmetic ' + o)
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if a.op == 'fconst' and b.op == 'fconst' and a.w != -80:
                return tm.fconst(tm.evaluate([tm.fpop(o, a.w, (a, b))], {})[0], a.w)
            return tm.fpop(o, a.w, (a, b))
        if a.w == 0:
            if o == 'and': return and_(a, b)
            if o == 'or': return or_(a, b)
            if o == 'xor' or o == 'add' or o == 'sub': return tm.xor_(a, b)
            raise Unsupported('i1 ' + o)
        if o in ('sdiv', 'udiv', 'srem', 'urem'):
            # the sanitizer guards signed and unsigned division by zero with a trap; keep our own as well
            self.bad(st, 'undefined behaviour: division by zero', site, tm.eq(b, const(0, b.w)))
            if o in ('sdiv', 'srem'):
                self.bad(st, 'undefined behaviour: division overflow', site,
                         and_(tm.eq(a, const(1 << (a.w - 1), a.w)), tm.eq(b, const(-1, b.w))))
        r = self.BIN[o](a, b)
        if o in ('add', 'sub', 'mul', 'shl'): self.wrap(st, r)
        return r

    def icmp(self, st, pr, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, T): a = NULL if isc(a) and a.p == 0 else a
            if isinstance(b, T): b = NULL if isc(b) and b.p == 0 else b
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('pointer/integer compare')
            res = []
            for ca, oa, fa in a.alts:
                for cb, ob, fb in b.alts:
                    c = and_(ca, cb)
                    if c is FALSE: continue
                    if oa == ob:
                        if pr == 'eq': e = tm.eq(fa, fb)
                        elif pr == 'ne': e = tm.ne(fa, fb)
                        else: e = self.icmp(st, pr, fa, fb)
                    else:
                        if pr == 'eq': e = FALSE
                        elif pr == 'ne': e = TRUE
                        else:
                            if and_(*(st.guard + (c,))) is FALSE: continue
                            raise Unsupported('pointer order across objects')
                    res.append(and_(c, e))
            return or_(*res)
        if a.w == 0:
            if pr == 'eq': return tm.iff(a, b)
            if pr == 'ne': return tm.xor_(a, b)
            a, b = tm.zext(a, 2), tm.zext(b, 2)
        return {'eq': tm.eq, 'ne': tm.ne, 'slt': tm.slt, 'sle': tm.sle, 'ult': tm.ult, 'ule': tm.ule,
                'sgt': lambda x, y: tm.slt(y, x), 'sge': lambda x, y: tm.sle(y, x),
                'ugt': lambda x, y: tm.ult(y, x), 'uge': lambda x, y: tm.ule(y, x)}[pr](a, b)

    def fcmp(self, pr, a, b):
        F = lambda op, x, y: tm.fpop(op, 0, (x, y))
        if pr == 'oeq': return F('foeq', a, b)
        if pr == 'une': return not_(F('foeq', a, b))
        if pr == 'olt': return F('folt', a, b)
        if pr == 'ogt': return F('folt', b, a)
        if pr == 'ole': return F('fole', a, b)
        if pr == 'oge': return F('fole', b, a)
        if pr == 'uno': return F('funo', a, b)
        if pr == 'ord': return not_(F('funo', a, b))
        if pr == 'one': return and_(not_(F('foeq', a, b)), not_(F('funo', a, b)))
        if pr == 'ueq': return or_(F('foeq', a, b), F('funo', a, b))
        if pr == 'uge': return not_(F('folt', a, b))
        if pr == 'ugt': return not_(F('fole', a, b))
        if pr == 'ule': return not_(F('folt', b, a))
        if pr == 'ult': return not_(F('fole', b, a))
        raise Unsupported('fcmp ' + pr)

    def cast(self, st, o, a, t, t2):
        if o in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
            if isinstance(a, Ptr) or o == 'ptrtoint' or o == 'inttoptr': return a
            t2 = self.m.resolve(t2)
            fw = {'f32': -32, 'f64': -64, 'f80': -80}
            if t2.k in fw and a.w > 0: return tm.fbits(a, fw[t2.k])
            if t2.k == 'int' and a.w < 0: return tm.bitsof(a)
            return a
        fw = {'f32': -32, 'f64': -64, 'f80': -80}
        if o in ('sitofp', 'uitofp'):
            w = fw[t2.k]
            if a.w == 0: a = tm.sext(a, 8) if o == 'sitofp' else tm.zext(a, 8)
            return tm.fpop(o, w, (a,))
        if o in ('fpext', 'fptrunc'): return tm.fpop(o, fw[t2.k], (a,))
        if o in ('fptosi', 'fptoui'): return tm.fpop(o, t2.n, (a,))
        n = 0 if t2.n == 1 else t2.n
        if o == 'trunc': return tm.trunc(a, n)
        if o == 'zext': return tm.zext(a, n)
        if o == 'sext': return tm.sext(a, n)
        raise Unsupported('cast ' + o)

    # -------------------------------------------------------------- builtins and stubs
    def builtin(self, name, a, st, site):
        n = name[1:]
        r = self.cfg.get('redirect', {}).get(n)
        if r: return self.call('@' + r, a, st, site)
        if n.startswith('llvm.'):
            if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental')): return [(st, None)]
            if n.startswith(('llvm.memcpy', 'llvm.memmove')): return self.memcpy(st, a[0], a[1], a[2], site)
            if n.startswith('llvm.memset'):
                if not isc(a[2]): raise Unsupported('memset length')
                for k in range(a[2].p): self.store(st, self.padd(a[0], k), llir.IntTy(8), a[1], site)
                return [(st, None)]
            for pre, ff, of in (('llvm.sadd.with.overflow', tm.add, tm.saddo), ('llvm.ssub.with.overflow', tm.sub, tm.ssubo),
                                ('llvm.smul.with.overflow', tm.mul, tm.smulo)):
                if n.startswith(pre):
                    ov = of(a[0], a[1])
                    if ov is FALSE: return [(st, (ff(a[0], a[1]), ov))]
                    # the sanitizer branches to a trap when ov: the value is only used under not ov
                    return [(st, (ff(a[0], a[1], True), ov))]
            for pre, ff, of in (('llvm.uadd.with.overflow', tm.add, tm.uaddo), ('llvm.usub.with.overflow', tm.sub, tm.usubo),
                                ('llvm.umul.with.overflow', tm.mul, tm.umulo)):
                if n.startswith(pre): return [(st, (self.wrap(st, ff(a[0], a[1])), of(a[0], a[1])))]
            if n.startswith('llvm.cttz'):
                x = a[0]; r = const(x.w, x.w)
                for k in reversed(range(x.w)):
                    r = ite(tm.eq(tm.extract(x, k, k), const(1, 1)), const(k, x.w), r)
                return [(st, r)]
            if n.startswith('llvm.ctlz'):
                x = a[0]; r = const(x.w, x.w)
                for k in range(x.w):
                    r = ite(tm.eq(tm.extract(x, k, k), const(1, 1)), const(x.w - 1 - k, x.w), r)
                return [(st, r)]
            if n.startswith('llvm.ctpop'):
                x = a[0]; r = const(0, x.w)
                for k in range(x.w): r = tm.add(r, tm.zext(tm.extract(x, k, k), x.w))
                return [(st, r)]
            if n.startswith('llvm.abs'):
                x = a[0]
                return [(st, ite(tm.slt(x, const(0, x.w)), tm.neg(x), x))]
            for k, c in (('smax', tm.slt), ('smin', tm.slt), ('umax', tm.ult), ('umin', tm.ult)):
                if n.startswith('llvm.' + k):
                    l = c(a[0], a[1])
                    return [(st, ite(l, a[1], a[0]) if k.endswith('max') else ite(l, a[0], a[1]))]
            if n.startswith('llvm.expect'): return [(st, a[0])]
            if n.startswith('llvm.is.constant'): return [(st, FALSE)]
            if n.startswith('llvm.fabs'):
                raise Unsupported(n)
            raise Unsupported(n)
        if n.startswith('_ZSt3gcdI') and self.intercept_gcd: return self.do_gcd(n, a, st, site)
        if n.startswith('_ZSt3lcmI') and self.intercept_gcd: return self.do_lcm(n, a, st, site)
        if n.startswith('sv_'): return self.sv(n, a, st, site)
        if n == 'memcmp' or n == '__builtin_memcmp' or n == 'bcmp': return [(st, self.memcmp(st, a[0], a[1], a[2], site))]
        if n == 'memchr': return [(st, self.memchr(st, a[0], a[1], a[2], site))]
        if n == 'memcpy' or n == 'memmove': return [(self.memcpy(st, a[0], a[1], a[2], site)[0][0], a[0])]
        if n == 'strlen': return [(st, self.strlen(st, a[0], site))]
        if n in ('abs', 'labs', 'llabs'):
            x = a[0]
            self.bad(st, 'undefined behaviour: abs overflow', site, tm.eq(x, const(1 << (x.w - 1), x.w)))
            return [(st, ite(tm.slt(x, const(0, x.w)), tm.sub(const(0, x.w), x, True), x))]
        if n in ('__cxa_throw', '_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_rethrow') or n.startswith(('_ZSt24__throw', '_ZSt20__throw', '_ZSt17__throw', '_ZSt27__throw', '_ZSt19__throw', '_ZSt28__throw', '_ZSt25__throw', '_ZSt21__glibcxx_assert_fail')):
            self.bad(st, 'terminates: ' + n, site)
            return []
        if n == '__cxa_allocate_exception':
            return [(st, mkptr(self.new_obj(st, 256, {}, 'exc')))]
        h = self.cfg.get('stubs', {}).get(n)
        if h: return h(self, n, a, st, site)
        for pre, h in self.cfg.get('stub_prefix', {}).items():
            if n.startswith(pre): return h(self, n, a, st, site)
        return NotImplemented

    # -- harness intrinsics
    def sv(self, n, a, st, site):
        if n in ('sv_range', 'sv_urange'):
            lo, hi = (tm.sval(a[0]), tm.sval(a[1])) if n == 'sv_range' else (a[0].p, a[1].p)
            if self.scale:
                s = self.scale
                if hi - lo > 2 * s:
                    lo, hi = (max(lo, -s), min(hi, s)) if n == 'sv_range' and lo < 0 else (lo, min(hi, lo + s))
            nm = 'in%d' % len(self.inputs)
            # auto-split hook
            sp = self.cfg.get('split', {}).get(len(self.inputs))
            if sp: lo, hi = max(lo, sp[0]), min(hi, sp[1])
            self.inputs.append((nm, lo, hi, 64))
            if lo > hi: return []
            if lo == hi: return [(st, const(lo, 64))]
            return [(st, tm.var(nm, 64, lo, hi))]
        if n == 'sv_case':
            lo, hi = tm.sval(a[0]), tm.sval(a[1])
            if self.case_i >= len(self.cases): raise NeedCase(lo, hi)
            v = self.cases[self.case_i]; self.case_i += 1
            self.inputs.append(('case', v, v, 64))
            return [(st, const(v, 64))]
        if n == 'sv_assume':
            s2 = st.fork(a[0])
            return [] if s2 is None else [(s2, None)]
        if n == 'sv_assert':
            self.asserted += 1
            self.bad(st, 'assert %d' % a[1].p, site, not_(a[0]))
            self.reach = getattr(self, 'reach', [])
            self.reach.append(and_(*st.guard))
            s2 = st.fork(a[0])
            return [] if s2 is None else [(s2, None)]
        if n == 'sv_out':
            self.outs.append((and_(*st.guard), a[0]))
            return [(st, None)]
        if n == 'sv_done':
            self.done = or_(getattr(self, 'done', FALSE), and_(*st.guard))
            return [(st, None)]
        raise Unsupported(n)

    # -- std::gcd / std::lcm contracts (C++ [numeric.ops.gcd], [numeric.ops.lcm])
    TYW = {'i': (32, True), 'j': (32, False), 'l': (64, True), 'm': (64, False), 'x': (64, True), 'y': (64, False),
           's': (16, True), 't': (16, False), 'a': (8, True), 'h': (8, False), 'c': (8, True)}
    def tyargs(self, n):
        # _ZSt3gcdIiiENSt11common_type...
        return self.TYW[n[9]], self.TYW[n[10]]
    def do_gcd(self, n, a, st, site):
        (wa, sa), (wb, sb) = self.tyargs(n)
        w = max(wa, wb, 32)
        sg = (sa or wa < w) and (sb or wb < w)
        g = tm.gcd(a[0], a[1], sa, sb, w)
        for x, s in ((a[0], sa), (a[1], sb)):
            if s: self.bad(st, 'undefined behaviour: gcd of the minimum value', site, tm.eq(x, const(1 << (x.w - 1), x.w)))
        self.used_gcd = True
        return [(st, g)]
    def do_lcm(self, n, a, st, site):
        (wa, sa), (wb, sb) = self.tyargs(n)
        w = max(wa, wb, 32)
        sg = sa and sb if wa == wb else (sa if wa > wb else sb)
        for x, s in ((a[0], sa), (a[1], sb)):
            if s: self.bad(st, 'undefined behaviour: lcm of the minimum value', site, tm.eq(x, const(1 << (x.w - 1), x.w)))
        ov = tm.lcmo(a[0], a[1], sa, sb, w, sg)
        self.bad(st, 'undefined behaviour: lcm not representable', site, ov)
        s2 = st.fork(not_(ov))
        self.used_gcd = True
        return [] if s2 is None else [(s2, tm.lcm(a[0], a[1], sa, sb, w, sg))]

    # -- C library contracts
    def byte(self, st, p, site): return self.load(st, p, llir.IntTy(8), site)
    def memcpy(self, st, d, s, n, site):
        if not isc(n): raise Unsupported('memcpy length')
        ln = n.p
        if ln == 0: return [(st, None)]
        if len(s.alts) == 1 and isc(s.alts[0][2]) and s.alts[0][1] in st.mem:
            _, o, off = s.alts[0]
            ob = st.mem[o]; k0 = tm.sval(off)
            if k0 < 0 or k0 + ln > ob.size:
                self.bad(st, 'out-of-bounds read in memcpy', site); return []
            # whole cells are copied as they are
            pos = k0
            items = []
            for j in sorted(ob.cells):
                sz, v = ob.cells[j]
                if j + sz <= k0 or j >= k0 + ln: continue
                if j >= k0 and j + sz <= k0 + ln: items.append((j - k0, sz, v))
                else:
                    lo, hi = max(j, k0), min(j + sz, k0 + ln)
                    if not isinstance(v, T): raise Unsupported('partial pointer copy')
                    vb = tm.bitsof(v) if v.w < 0 else v
                    items.append((lo - k0, hi - lo, tm.extract(vb, 8 * (hi - j) - 1, 8 * (lo - j))))
            if len(d.alts) == 1 and isc(d.alts[0][2]) and d.alts[0][1] in st.mem:
                od = st.mem[d.alts[0][1]]; kd = tm.sval(d.alts[0][2])
                if kd < 0 or kd + ln > od.size:
                    self.bad(st, 'out-of-bounds write in memcpy', site); return []
                nc = dict(od.cells)
                self.write_cell(nc, kd, ln, None)
                for r, sz, v in items: nc[kd + r] = (sz, v)
                st.mem[d.alts[0][1]] = Obj(od.size, nc, od.name, od.const)
                return [(st, None)]
            for r, sz, v in items:
                t = llir.PTR if isinstance(v, Ptr) else llir.IntTy(sz * 8)
                if isinstance(v, T) and v.w < 0: v = tm.bitsof(v)
                self.store(st, self.padd(d, r), t, v, site)
            return [(st, None)]
        for k in range(ln):
            self.store(st, self.padd(d, k), llir.IntTy(8), self.byte(st, self.padd(s, k), site), site)
        return [(st, None)]

    def _maxlen(self, st, p, n):
        if isc(n): return n.p
        mx = 0
        for c, o, off in p.alts:
            if o in st.mem: mx = max(mx, st.mem[o].size - max(0, off.sl if off.sl > -1 else 0))
        return min(mx, n.uh)

    def memcmp(self, st, p, q, n, site):
        m = min(self._maxlen(st, p, n), self._maxlen(st, q, n)) if not isc(n) else n.p
        if not isc(n):
            self.bad(st, 'out-of-bounds memcmp', site, tm.ult(const(m, n.w), n))
        r = const(0, 32)
        for k in reversed(range(m)):
            s2 = st.fork(tm.ult(const(k, n.w), n))
            if s2 is None: continue
            x, y = self.byte(s2, self.padd(p, k), site), self.byte(s2, self.padd(q, k), site)
            r = ite(and_(tm.ult(const(k, n.w), n), tm.ne(x, y)), tm.sub(tm.zext(x, 32), tm.zext(y, 32)), r)
        return r

    def memchr(self, st, p, c, n, site):
        m = self._maxlen(st, p, n)
        if not isc(n): self.bad(st, 'out-of-bounds memchr', site, tm.ult(const(m, n.w), n))
        ch = tm.trunc(c, 8)
        r = NULL
        for k in reversed(range(m)):
            inb = tm.ult(const(k, n.w), n)
            s2 = st.fork(inb)
            if s2 is None: continue
            x = self.byte(s2, self.padd(p, k), site)
            r = vmerge(and_(inb, tm.eq(x, ch)), self.padd(p, k), r)
        return r

    def strlen(self, st, p, site):
        c, o, off = p.alts[0]
        if len(p.alts) > 1 or o not in st.mem: raise Unsupported('strlen')
        ob = st.mem[o]
        k0 = off.p if isc(off) else None
        if k0 is None: raise Unsupported('strlen offset')
        r = None
        noz = []
        vals = []
        for k in range(k0, ob.size):
            x = self.byte(st, mkptr(o, k), site)
            z = tm.eq(x, const(0, 8))
            vals.append((z, k - k0))
            if z is TRUE: break
        else:
            self.bad(st, 'strlen runs past the end', site, and_(*[not_(z) for z, _ in vals]))
        r = const(vals[-1][1], 64)
        for z, k in reversed(vals[:-1]): r = ite(z, const(k, 64), r)
        return r
