"""Driver: decides one property by symbolic execution of the real code and SMT queries.

For every harness entry: clang -> LLVM IR -> state-merging symbolic execution -> obligations (assertions, traps,
undefined behaviour, memory safety) -> solver.  Every satisfiable obligation is replayed natively against the real
code before it is reported."""
import sys, os, re, json, time, subprocess, random, hashlib, shutil, multiprocessing as mp, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import llir, symex, terms as tm, lower_int
REPO = os.environ.get('SV_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CXX = 'clang++'
SAN = ['-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,return,unreachable,float-cast-overflow',
       '-fsanitize-trap=all']
CFLAGS = ['-std=c++20', '-O0', '-D_GLIBCXX_ASSERTIONS', '-include', 'cstring', '-I' + os.path.join(VERIF, 'harness'),
          '-I' + os.path.join(REPO, 'include'), '-Wno-everything']
Z3 = 'z3-new'

class Deadline(Exception): pass

# ---------------------------------------------------------------------------------------------- compilation
def compile_ir(src, out, defs):
    cmd = [CXX] + CFLAGS + SAN + list(defs) + ['-fno-discard-value-names', '-S', '-emit-llvm', src, '-o', out]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def compile_native(srcs, out, defs, entries):
    tab = out + '.entries.cpp'
    with open(tab, 'w') as f:
        f.write('struct sv_entry { const char* name; void (*fn)(); };\nextern "C" {\n')
        for e in entries: f.write('void %s();\n' % e)
        f.write('}\nextern sv_entry sv_entries[];\nsv_entry sv_entries[] = {\n')
        for e in entries: f.write('  {"%s", %s},\n' % (e, e))
        f.write('  {nullptr, nullptr}};\n')
    cmd = [CXX] + CFLAGS + SAN + ['-fsanitize=address', '-g1', '-DSV_NATIVE=1'] + list(defs) + srcs + [tab, os.path.join(VERIF, 'harness', 'replay.cpp'), '-o', out]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:handle_segv=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1')
def native_run(binary, lines):
    """lines: list of (entry, [values]) -> list of (outs, flags, end)"""
    if not lines: return []
    txt = ''.join('%s %s\n' % (e, ' '.join(map(str, v))) for e, v in lines)
    p = subprocess.run([binary], input=txt, capture_output=True, text=True, env=NENV, errors='replace')
    res, outs, flags = [], [], []
    for l in p.stdout.splitlines():
        if l.startswith('OUT '): outs.append(int(l[4:]))
        elif l.startswith('END '):
            res.append((outs, flags, l[4:])); outs, flags = [], []
        elif l.split(' ')[0] in ('ASSUME', 'FAIL', 'DONE', 'NOENTRY'): flags.append(l)
    return res

# ---------------------------------------------------------------------------------------------- one entry
class Entry:
    """solves one harness entry (one sv_case combination)"""
    def __init__(self, mod, name, opts, tier, deadline, seed):
        self.mod, self.name, self.o, self.tier, self.deadline = mod, name, opts, tier, deadline
        self.rng = random.Random('%s/%s' % (seed, name))
        self.q = []          # (label, solver, result, seconds)
        self.res = dict(name=name, oblig=0, proved=0, bounded=0, undecided=[], cex=[], samples=[], states=0, edges=0,
                        steps=0, fns=[], queries=0, solver_s=0.0, notes=[], lemmas=0, vac=[], trivial=0, bound='')

    def left(self): return self.deadline - time.time()

    def execute(self, cases=(), scale=None, split=None, **kw):
        cfg = dict(cases=cases, scale=scale, split=split or {})
        cfg.update(self.o.get('exec', {})); cfg.update(kw)
        if callable(cfg.get('stubs')): cfg['stubs'] = cfg['stubs']()
        ex = symex.Exec(self.mod, cfg)
        ex.done = tm.FALSE
        ex.reach = []
        if cfg.pop('use_feasible', False): ex.feasible = Feas(self)
        ex.call('@' + self.name, [], symex.State((), {}), None)
        self.res['states'] += ex.nstates; self.res['edges'] += ex.nedges; self.res['steps'] += ex.nsteps
        self.res['fns'] = sorted(set(self.res['fns']) | ex.fns_used)
        return ex

    # ------------------------------------------------------------------ SMT
    def smt(self, text, timeout, solver='z3', label=''):
        timeout = min(timeout, self.left())
        if timeout < 0.5: return 'unknown', ''
        t0 = time.time()
        if solver == 'z3': cmd = [Z3, '-in', '-memory:3000', '-T:%d' % max(1, int(timeout + 0.5))]
        else: cmd = ['cvc5', '--lang=smt2', '--nl-ext-tplanes', '--tlimit=%d' % int(timeout * 1000), '-']
        try:
            p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 10)
            out = p.stdout.strip()
        except subprocess.TimeoutExpired:
            out = 'timeout'
        dt = time.time() - t0
        r = out.split('\n')[0].strip() if out else 'unknown'
        if r not in ('sat', 'unsat'):
            if '(error' in out: self.res['notes'].append('solver error: ' + out[:200])
            r = 'unknown'
        elif '(error' in out and r == 'unsat':
            rest = [l for l in out.split('\n')[1:] if '(error' in l and 'model is not available' not in l and 'cannot get value' not in l.lower()]
            if rest: r = 'unknown'; self.res['notes'].append('solver error: ' + rest[0][:200])
        self.res['queries'] += 1; self.res['solver_s'] += dt
        self.q.append((label, solver, r, dt))
        return r, out

    @staticmethod
    def parse_model(out):
        m = {}
        for nm, v in re.findall(r'\((in\d+)\s+(\(-\s*\d+\)|-?\d+)\)', out):
            v = v.replace('(', '').replace(')', '').replace(' ', '')
            m[nm] = int(v)
        return m

    def nia(self, ex, conds, timeout, label='', solver='z3', hint=None):
        """decides OR(conds) over integers.  returns (result, model)"""
        mod = set()
        for attempt in range(6):
            il = lower_int.IntLower(mod)
            il.uniq = self.o.get('uniq', False)
            cs = [il.B(c) for c in conds]
            lem = dict(il.assumed)
            disj = cs[0] if len(cs) == 1 else '(or %s)' % ' '.join(cs)
            names = [t.p for t in il.vars.values()]
            txt = il.script([disj] + ([hint(il.vars.values())] if hint and il.vars else []))
            if names: txt += '(get-value (%s))\n' % ' '.join(names)
            # lemmas: plain operations lowered exactly do not wrap
            bad = False
            proved = getattr(ex, 'lemma_ok', None)
            if proved is None: proved = ex.lemma_ok = {}
            for tid, (t, ws) in lem.items():
                if tid in proved:
                    if not proved[tid]: mod.add(tid); bad = True
                    continue
                e = ex.wraps.get(tid)
                g = tm.TRUE if e is None else tm.or_(*[tm.and_(*gs) for gs in e[1]])
                l2 = lower_int.IntLower(mod); l2.uniq = self.o.get('uniq', False)
                gs = l2.B(g)
                l2.get(t)
                w2 = l2.assumed.get(tid)
                if w2 is None: continue
                ok = False
                r, _ = self.smt(l2.script([gs, w2[1]]), min(6, timeout), 'z3', 'nowrap')
                self.res['lemmas'] += 1
                proved[tid] = r == 'unsat'
                if r != 'unsat': mod.add(tid); bad = True
            if bad: continue
            r, out = self.smt(txt, timeout, solver, label)
            return r, (self.parse_model(out) if r == 'sat' else None)
        return 'unknown', None

    def bv(self, ex, conds, timeout, label=''):
        import z3, lower_bv
        timeout = min(timeout, self.left())
        if timeout < 0.5: return 'unknown', None
        bl = lower_bv.BVLower()
        t0 = time.time()
        cs = [bl.get(c) for c in conds]
        s = z3.SolverFor('QF_BV') if not any(True for t in tm.topo(conds) if t.w < 0) else z3.Solver()
        s.set('timeout', int(timeout * 1000)); s.set('max_memory', 4000)
        for x in bl.side: s.add(x)
        s.add(z3.Or(*cs) if len(cs) > 1 else cs[0])
        try: r = str(s.check())
        except z3.Z3Exception as e: r = 'unknown'; self.res['notes'].append('z3: ' + str(e)[:100])
        m = None
        if r == 'sat':
            mm = s.model(); m = {}
            for nm, (v, n, sg) in bl.vars.items():
                x = mm.eval(v, model_completion=True)
                if n == 0: m[nm] = int(z3.is_true(x)); continue
                x = x.as_long()
                m[nm] = x - (1 << n) if sg and x >> (n - 1) & 1 else x
        dt = time.time() - t0
        self.res['queries'] += 1; self.res['solver_s'] += dt
        self.q.append((label, 'z3-bv', r, dt))
        return r, m

    def retry(self, ex, obs):
        """a model was spurious (rounding is over-approximated over the integers): look for a genuine one among smaller inputs"""
        n = self.res.setdefault('retries', 0)
        if n >= 6: return False
        self.res['retries'] = n + 1
        for k in (7, 63, 1000, 1 << 20):
            h = lambda vs: '(and true %s)' % ' '.join('(<= %s %s %s)' % (lower_int.lit(max(v.sl, -k)), v.p, lower_int.lit(min(v.sh, max(k, v.sl)))) for v in vs if v.w > 0)
            try: r, m = self.nia(ex, [x[2] for x in obs], 4, 'retry', hint=h)
            except lower_int.IntUnsupported: return False
            if r == 'sat' and self.cex(ex, obs, m, True): return True
        return False

    def decide(self, ex, conds, timeout, label='', domain=None, solver='z3'):
        d = domain or self.o.get('domain', 'nia')
        conds = [c for c in conds if c is not tm.FALSE]
        if not conds: return 'unsat', None
        try:
            if d == 'nia': return self.nia(ex, conds, timeout, label, solver)
            return self.bv(ex, conds, timeout, label)
        except lower_int.IntUnsupported as e:
            self.note('not expressible in integers: %s' % e)
            try: return self.bv(ex, conds, timeout, label)
            except Exception as e2:
                self.note('no bit-vector form: %s' % e2); return 'unknown', None
        except Exception as e:
            if type(e).__name__ == 'BVUnsupported':
                self.note('no bit-vector form: %s' % e)
                if domain == 'bv': return 'unknown', None
                try: return self.nia(ex, conds, timeout, label, solver)
                except lower_int.IntUnsupported: return 'unknown', None
            raise
    def note(self, s):
        if s not in self.res['notes']: self.res['notes'].append(s)

    # ------------------------------------------------------------------ counterexamples
    def vector(self, ex, m):
        v = []
        for nm, lo, hi, w in ex.inputs:
            if nm == 'case': v.append(lo)
            else:
                x = m.get(nm, lo if lo == hi or not lo <= 0 <= hi else 0)
                v.append(min(max(x, lo), hi))
        return v
    def env(self, ex, vec): return {nm: x for (nm, lo, hi, w), x in zip(ex.inputs, vec) if nm != 'case'}
    def cex(self, ex, obs, m, again=False):
        """keep the model if the condition really evaluates to true on it"""
        vec = self.vector(ex, m)
        kinds = []
        for k, site, c in obs:
            try: v = tm.evaluate([c], self.env(ex, vec))[0]
            except tm.EvalUndef: v = True
            if v: kinds.append((k, str(site)))
        if not kinds:
            self.note('a model did not evaluate to a violation (discarded)')
            return not again and self.o.get('domain', 'nia') == 'nia' and self.retry(ex, obs)
        self.res['cex'].append(dict(entry=self.name, inputs=vec, kinds=kinds))
        return True

    # ------------------------------------------------------------------ the plan
    def run_case(self, cases):
        o = self.o
        ex = self.execute(cases)
        obs = [x for x in ex.oblig if x[2] is not tm.FALSE]
        self.res['oblig'] += len(obs); self.res['trivial'] += ex.ntriv
        self.res['bound'] = '; '.join('%s in [%d,%d]' % (n, lo, hi) for n, lo, hi, w in ex.inputs if n != 'case')[:400]
        self.samples(ex)
        t1 = o.get('t1', 4); t2 = o.get('t2', 15 if self.tier == 'quick' else 90)
        pend = []
        traps = [x for x in obs if not x[0].startswith('assert')]
        asserts = [x for x in obs if x[0].startswith('assert')]
        groups = []
        if traps: groups.append(traps)
        groups += [[a] for a in asserts] if not o.get('group_asserts') else ([asserts] if asserts else [])
        for g in groups:
            r, m = self.decide(ex, [x[2] for x in g], t1, g[0][0] if len(g) == 1 else 'traps')
            if r == 'unsat': self.proved(g); continue
            if r == 'sat' and self.cex(ex, g, m): return
            pend += g
        # a violation is easier to find with some inputs fixed: what is left is closer to linear
        if pend:
            keys = set((k, str(s)) for k, s, c in pend)
            for h in o.get('hints', ()):
                if self.left() < 4: break
                e2 = self.execute(cases, split=h)
                ob2 = [x for x in e2.oblig if (x[0], str(x[1])) in keys]
                if not ob2: continue
                r, m = self.decide(e2, [x[2] for x in ob2], o.get('thint', 3), 'fixed')
                if r == 'sat' and self.cex(e2, ob2, m): return
        if pend and len(pend) > 1 or (pend and t2 > t1 * 1.5):
            p2 = []
            for x in pend:
                if len(pend) == 1 and False: continue
                r, m = self.decide(ex, [x[2]], t2 if len(pend) < 6 else t1, x[0])
                if r == 'unsat': self.proved([x]); continue
                if r == 'sat' and self.cex(ex, [x], m): return
                p2.append(x)
            pend = p2
        if not pend: return
        # bounded search with small inputs, bit-precise
        keys = set((k, str(s)) for k, s, c in pend)
        small = o.get('small', (3, 9))
        bok = None
        for s in small:
            if self.left() < 2: break
            tm_ex = self.execute(cases, scale=s)
            ob2 = [x for x in tm_ex.oblig if (x[0], str(x[1])) in keys]
            if not ob2: bok = s; continue
            r, m = self.decide(tm_ex, [x[2] for x in ob2], o.get('tsmall', 40), 'small%d' % s, 'bv')
            if r == 'sat' and self.cex(tm_ex, ob2, m): return
            if r != 'unsat': break
            bok = s
        # case split over the signs / magnitudes of the inputs
        cubes = self.cubes(ex)
        still = {}
        dead = not cubes          # nothing left to try
        for cb in cubes:
            if self.left() < 2: dead = True; break
            e2 = self.execute(cases, split=cb)
            for x in e2.oblig:
                k = (x[0], str(x[1]))
                if k not in keys or k in still: continue
                r, m = self.decide(e2, [x[2]], t2, x[0] + ' cube')
                if r == 'sat' and self.cex(e2, [x], m): return
                if r != 'unsat': still[k] = 1
        for x in pend:
            k = (x[0], str(x[1]))
            if dead or k in still:
                self.res['undecided'].append(dict(entry=self.name, kind=x[0], site=str(x[1])[-80:], small=bok))
                if bok: self.res['bounded'] += 1
            else: self.proved([x])

    def proved(self, g):
        self.res['proved'] += len(g)
        if self.tier == 'thorough' and self.o.get('domain', 'nia') == 'nia' and self.o.get('cross', True) and self.left() > 60:
            pass

    def cubes(self, ex):
        ins = [(i, lo, hi) for i, (n, lo, hi, w) in enumerate(ex.inputs) if n != 'case' and lo < 0 < hi][:4]
        out = [{}]
        for i, lo, hi in ins:
            out = [{**c, i: r} for c in out for r in ((1, hi), (lo, -1), (0, 0))]
        return [{int(k): v for k, v in c.items()} for c in out] if ins else []

    def samples(self, ex):
        """concrete inputs on which the harness completes: reachability witness, and validation of the encoding"""
        want = self.o.get('nsamples', 3)
        got = 0
        reached = [False] * len(ex.reach)
        for k in range(self.o.get('sample_tries', 60)):
            vec = []
            for nm, lo, hi, w in ex.inputs:
                if nm == 'case': vec.append(lo); continue
                b = self.rng.randint(0, max(1, max(abs(lo), abs(hi)).bit_length()))
                x = self.rng.randint(-(1 << b), 1 << b) if lo < 0 else self.rng.randint(0, 1 << b)
                if self.rng.random() < 0.1: x = self.rng.choice([lo, hi, lo + 1, hi - 1, 0, 1])
                vec.append(min(max(x, lo), hi))
            try:
                roots = [ex.done] + list(ex.reach) + [c for _, _, c in ex.oblig] + [q for g, t in ex.outs for q in (g, t)]
                ev = tm.evaluate(roots, self.env(ex, vec))
            except tm.EvalUndef as e:
                self.note('samples not evaluated: %s' % e)
                got = -1; break
            n = 1 + len(ex.reach)
            for i, v in enumerate(ev[1:n]): reached[i] |= v
            nob = len(ex.oblig)
            if not ev[0] or any(ev[n:n + nob]): continue
            if got < want:
                outs = []
                oo = ev[n + nob:]
                for i in range(0, len(oo), 2):
                    if oo[i]: outs.append(tm.to_s(oo[i + 1], ex.outs[i // 2][1].w))
                self.res['samples'].append((self.name, vec, outs)); got += 1
            if got >= want and all(reached): break
        if got <= 0 or not any(c is not tm.FALSE for _, _, c in ex.oblig):
            # ask the solver for a completing run
            r, m = self.decide(ex, [ex.done], 15, 'reach')
            if r == 'unsat': self.res['vac'].append('%s: no run completes' % self.name)
            elif r == 'sat' and got < 0: self.note('a completing run exists')
            elif r == 'sat':
                self.res['samples'].append((self.name, self.vector(ex, m), None)); 
            else: self.note('reachability undecided')
        missing = [i for i, v in enumerate(reached) if not v] if got >= 0 else []
        for i in missing[:12]:
            r, m = self.decide(ex, [ex.reach[i]], 5, 'reach-assert')
            if r == 'unsat': self.res['vac'].append('%s: assertion %d never reached' % (self.name, i))

    def run(self):
        tm.reset()
        try:
            self.enum_cases(())
        except Deadline:
            self.res['undecided'].append(dict(entry=self.name, kind='deadline', site='', small=None))
        except (symex.Unsupported, symex.Limit, llir.ParseError if hasattr(llir, 'ParseError') else symex.Limit) as e:
            self.res['undecided'].append(dict(entry=self.name, kind='not encodable: %s (case %s)' % (e, self.cur), site='', small=None))
        except Exception as e:
            self.res['undecided'].append(dict(entry=self.name, kind='internal error: %r' % e, site=traceback.format_exc()[-600:], small=None))
        self.res['q'] = sorted(self.q, key=lambda x: -x[3])[:5]
        return self.res

    def enum_cases(self, cases):
        self.cur = cases
        if self.left() < 1: raise Deadline()
        if self.res['cex']: return
        try:
            self.run_case(cases)
        except symex.NeedCase as e:
            for v in range(e.lo, e.hi + 1):
                tm.reset()
                self.enum_cases(cases + (v,))

class Feas:
    """feasibility oracle for loop back edges: bit-vector solver on the path condition"""
    def __init__(self, ent): self.ent, self.memo = ent, {}
    def __call__(self, guard):
        import z3, lower_bv
        c = tm.and_(*guard)
        if c is tm.FALSE: return False
        if c is tm.TRUE: return True
        r = self.memo.get(c.id)
        if r is None:
            try:
                bl = lower_bv.BVLower(); e = bl.get(c)
                s = z3.Solver(); s.set('timeout', 3000)
                for x in bl.side: s.add(x)
                s.add(e); t0 = time.time()
                r = str(s.check()) != 'unsat'
                self.ent.res['queries'] += 1; self.ent.res['solver_s'] += time.time() - t0
            except lower_bv.BVUnsupported: r = True
            self.memo[c.id] = r
        return r

# ---------------------------------------------------------------------------------------------- pool
_MODS, _JOBS, _CTX = {}, [], None
def _work(i):
    src, name, opts, tier, deadline, seed = _JOBS[i]
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try: return Entry(_MODS[src], name, opts, tier, deadline, seed).run()
    except Exception as e: return dict(name=name, crash=repr(e))

def opts_for(conf, name):
    o = {}
    for pat, d in conf.get('opts', []):
        if re.match(pat + '$', name): o.update(d)
    return o

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@') for n in names), capture_output=True, text=True)
    return p.stdout.split('\n')

def main(pid, tier, only=None, verbose=False):
    global _JOBS
    sys.setrecursionlimit(200000)
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    import conf as hc
    conf = hc.CONF[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = conf.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
    deadline = t0 + budget
    bd = os.path.join(BUILD, '%s-%d' % (pid, os.getpid()))
    os.makedirs(bd, exist_ok=True)
    try:
        return _main(pid, tier, only, verbose, conf, seed, deadline, bd, t0)
    finally:
        shutil.rmtree(bd, ignore_errors=True)
        try: os.rmdir(BUILD)
        except OSError: pass

def _main(pid, tier, only, verbose, conf, seed, deadline, bd, t0):
    global _JOBS
    defs = ['-DSV_THOROUGH=1'] if tier == 'thorough' else []
    srcs = [os.path.join(VERIF, 'harness', f) for f in conf.get('files', [pid + '.cpp'])]
    procs = []
    for s in srcs:
        out = os.path.join(bd, os.path.basename(s) + '.ll')
        procs.append((s, out, compile_ir(s, out, defs)))
    for s, out, p in procs:
        so = p.communicate()[0]
        if p.returncode:
            print(so[-4000:]); print('ERROR: harness %s does not compile against %s' % (s, REPO)); return 2
        _MODS[s] = llir.Module(open(out).read())
    entries = []
    for s in srcs:
        for f in sorted(_MODS[s].fns):
            if f.startswith('@H_') or (tier == 'thorough' and f.startswith('@T_')):
                if only and not re.match(only + '$', f[1:]): continue
                entries.append((s, f[1:]))
    nat = os.path.join(bd, 'replay')
    natp = compile_native(srcs, nat, defs, [e for _, e in entries])
    # slow entries first
    order = sorted(entries, key=lambda e: -opts_for(conf, e[1]).get('weight', 1))
    _JOBS = [(s, e, opts_for(conf, e), tier, deadline, seed) for s, e in order]
    results, cexs = [], []
    known = load_known(pid)
    natlog = None
    def native_ready():
        nonlocal natlog
        if natlog is None:
            natlog = natp.communicate()[0]
            if natp.returncode: print(natlog[-3000:]); print('ERROR: native replay build failed')
        return natp.returncode == 0
    viol = []
    knownhits = set()
    nproc = int(os.environ.get('SV_JOBS', '8'))
    pool = mp.get_context('fork').Pool(nproc, maxtasksperchild=8)
    try:
        for r in pool.imap_unordered(_work, range(len(_JOBS)), chunksize=1):
            results.append(r)
            if verbose:
                print('%-44s obl %3d proved %3d q %3d solver %.1fs %s %s %s %s' % (
                    r['name'], r.get('oblig', 0), r.get('proved', 0), r.get('queries', 0), r.get('solver_s', 0),
                    'CEX' if r.get('cex') else '', ('UNDEC %d' % len(r['undecided'])) if r.get('undecided') else '',
                    r.get('notes') or '', r.get('vac') or ''), flush=True)
                for u in r.get('undecided', [])[:2]: print('      undecided', u)
                for c in r.get('cex', []): print('      cex', c)
                if r.get('q') and r['q'][0][3] > 3: print('      slow', [q for q in r['q'] if q[3] > 3])
                if r.get('crash'): print(r)
            for c in r.get('cex', []):
                if not native_ready(): continue
                res = native_run(nat, [(c['entry'], c['inputs'])])[0]
                c['native'] = [list(map(str, res[0])), res[1], res[2]]
                hit = known_match(known, c)
                if res[2] != 'ok':
                    if hit: knownhits.add(hit)
                    else: viol.append(c)
                else:
                    c['spurious'] = True
                    print('NOTE: a counterexample did not reproduce natively: %s' % c)
            if viol and not verbose: break
    finally:
        pool.terminate(); pool.join()
    # validation of the encoding: samples through the real code
    validated, mism = 0, []
    sv = [s for r in results for s in r.get('samples', [])]
    if native_ready() and not viol:
        for (e, vec, outs), (no, fl, end) in zip(sv, native_run(nat, [(e, v) for e, v, _ in sv])):
            if end != 'ok' or 'DONE' not in fl or (outs is not None and outs != no):
                c = dict(entry=e, inputs=vec, kinds=[('witness run differs', '')], native=[list(map(str, no)), fl, end], encoding=outs)
                if end != 'ok' and not known_match(known, c): viol.append(c)
                elif end == 'ok': mism.append(c)
            else: validated += 1
    for m in mism[:5]: print('WARNING: encoding and real code differ: %s' % m)
    und = [u for r in results for u in r.get('undecided', [])]
    spur = [c for r in results for c in r.get('cex', []) if c.get('spurious')]
    vac = [v for r in results for v in r.get('vac', [])]
    tot = lambda k: sum(r.get(k, 0) for r in results)
    fns = sorted(set(f for r in results for f in r.get('fns', [])))
    dm = [d for d in demangle(fns) if 'ieme::' in d]
    short = sorted(set(re.sub(r'\(.*', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', d)))) for d in dm))
    ev = dict(property=pid, tier=tier, seed=seed, level=conf.get('level', 'model_checking'),
              coverage=dict(states=tot('states'), transitions=tot('edges'), traces_validated_against_impl=validated,
                            samples=[dict(entry=e, inputs=v, outputs=o) for e, v, o in sv[:6]],
                            harness_entries=len(entries), entries_run=len(results), obligations=tot('oblig'), settled_by_simplification=tot('trivial'), discharged=tot('proved'),
                            no_wrap_lemmas=tot('lemmas'), queries=tot('queries'), solver_seconds=round(tot('solver_s'), 2),
                            instructions_executed_symbolically=tot('steps'), functions_encoded=dm[:4000] and short,
                            function_instances_encoded=len(dm),
                            bounds=conf.get('bounds', ''), input_bounds={r['name']: r.get('bound', '') for r in results[:6]},
                            undecided=und[:50], undecided_count=len(und), vacuous=vac, spurious=len(spur),
                            encoding_mismatches=len(mism), solver='z3 5.3.2 (integer and bit-vector back ends)',
                            notes=sorted(set(n for r in results for n in r.get('notes', [])))[:30]),
              assumptions=ASSUME + conf.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for k in sorted(knownhits): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: %d entries, %d obligations, %d discharged, %d undecided at the full bound, %d queries, %.1f s solver, %d runs validated, wall %.1f s' % (
        pid, tier, len(results), tot('oblig'), tot('proved'), len(und), tot('queries'), tot('solver_s'), validated, time.time() - t0))
    for u in und[:4]: print('  undecided: %s' % u)
    if vac: print('  vacuous: %s' % vac[:5])
    crash = [r for r in results if r.get('crash')]
    for r in crash: print('  worker error: %s' % r)
    if viol:
        v = viol[0]
        path = write_replay(pid, v, srcs, defs)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s inputs %s -> %s: %s' % (v['entry'], v['inputs'], v['kinds'][0], v.get('native')))
        return 1
    return 0

ASSUME = [
    'std::gcd and std::lcm meet their standard contracts (their preconditions are obligations)',
    'clang 18 -O0 IR for x86-64 with overflow, division and shift sanitizers represents the source; z3 is sound',
    'memcpy, memcmp, memchr, strlen and abs meet their C contracts; throwing or terminating counts as a violation']

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k.get('property') == pid and k.get('status') == 'known']
def known_match(known, c):
    for k in known:
        if re.match(k['entry'] + '$', c['entry']) and k.get('inputs') in (None, c['inputs']): return k['what']
    return None

def write_replay(pid, v, srcs, defs):
    d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([v['entry'], v['inputs']]).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s-%s.sh' % (pid, v['entry'], h))
    with open(p, 'w') as f:
        f.write('#!/bin/sh\n# %s violated: %s\n# rebuilds the harness against the current /repo and runs it on the inputs the solver found\n' % (pid, v['kinds']))
        f.write('D=$(mktemp -d) && trap \'rm -r "$D"\' EXIT\n')
        f.write('printf \'struct sv_entry { const char* name; void (*fn)(); }; extern "C" void %s(); extern sv_entry sv_entries[]; sv_entry sv_entries[] = {{"%s", %s}, {nullptr, nullptr}};\\n\' > "$D/e.cpp"\n' % ((v['entry'],) * 3))
        f.write('%s -DSV_NATIVE=1 -fsanitize=address %s "$D/e.cpp" %s -o "$D/r" || exit 2\n' % (' '.join([CXX] + CFLAGS + SAN + list(defs)), ' '.join(srcs), os.path.join(VERIF, 'harness', 'replay.cpp')))
        f.write('ASAN_OPTIONS=detect_leaks=0 "$D/r" %s %s; R=$?; echo "exit $R"; exit $R\n' % (v['entry'], ' '.join(map(str, v['inputs']))))
    os.chmod(p, 0o755)
    return p
