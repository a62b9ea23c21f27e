"""Parser for the textual LLVM IR emitted by clang 18 (the subset C++ code at -O0 uses)."""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'name', 'packed')
    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.el))
        if self.k == 'named': return self.name
        return self.k

INTS = {}
def IntTy(n):
    if n not in INTS: INTS[n] = Ty('int', n)
    return INTS[n]
PTR, VOID, F32, F64, F80, LABEL, META, OPAQUE = [Ty(k) for k in
    ('ptr', 'void', 'f32', 'f64', 'f80', 'label', 'metadata', 'opaque')]

TOK = re.compile(r'''
   \s+
 | (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<g>@(?:"[^"]*"|[-\w$.]+))
 | (?P<r>%(?:"[^"]*"|[-\w$.]+))
 | (?P<m>!(?:"[^"]*"|[-\w$.]*)(?:\([^()]*\))?)
 | (?P<attr>\#\d+)
 | (?P<q>"[^"]*")
 | (?P<fp>-?\d+\.\d+(?:e[-+]?\d+)?|0x[KHLM]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+)
 | (?P<id>[A-Za-z_$][-\w$.]*)
 | (?P<p>\.\.\.|[][(){}<>,=*|:])
''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize %r' % s[i:i + 60])
        i = m.end()
        if m.lastgroup:
            t = m.group(m.lastgroup)
            if m.lastgroup == 'm':
                continue_meta = True
            out.append((m.lastgroup, t))
    return out

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'readonly', 'writeonly', 'readnone', 'nocapture',
               'returned', 'inreg', 'noundef', 'immarg', 'writable', 'nofree', 'swiftself', 'allocptr', 'dead_on_unwind'}
PARAM_ATTRS_ARG = {'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'byref', 'elementtype',
                   'range', 'nofpclass', 'memory', 'captures', 'preallocated', 'inalloca', 'initializes', 'allocsize'}
FN_LINKAGE = {'linkonce_odr', 'dso_local', 'internal', 'private', 'weak', 'weak_odr', 'linkonce', 'available_externally',
              'external', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'default', 'protected', 'dllimport', 'comdat',
              'extern_weak', 'common', 'appending', 'thread_local', 'dso_preemptable', 'fastcc', 'ccc', 'coldcc', 'noundef',
              'musttail', 'tail', 'notail', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}

class P:
    """token cursor"""
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r at %r' % (v, self.t[self.i:self.i + 6]))
    def done(self):
        return self.i >= len(self.t)

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit(): t = IntTy(int(v[1:]))
            elif v == 'ptr': t = PTR
            elif v == 'void': t = VOID
            elif v == 'float': t = F32
            elif v == 'double': t = F64
            elif v == 'x86_fp80': t = F80
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = OPAQUE
            else: raise IRError('type? %r' % v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); el = self.type(); self.expect(']')
            t = Ty('arr', n, el)
        elif v == '{':
            t = self._struct('}', False)
        elif v == '<':
            if self.accept('{'):
                t = self._struct('}', True); self.expect('>')
            else:
                raise IRError('vector type')
        elif k == 'r':
            t = Ty('named', name=v)
        else:
            raise IRError('type? %r' % v)
        # function types  "T (args)*" are not used with opaque pointers except in calls to varargs
        return t

    def _struct(self, end, packed):
        els = []
        while not self.accept(end):
            els.append(self.type()); self.accept(',')
        return Ty('struct', el=els, packed=packed)

    def attrs(self):
        res = {}
        while True:
            k, v = self.peek()
            if k == 'id' and v in PARAM_ATTRS:
                self.i += 1; res[v] = True
            elif k == 'id' and v in PARAM_ATTRS_ARG:
                self.i += 1
                if self.accept('('):
                    if v in ('sret', 'byval', 'byref', 'elementtype'):
                        res[v] = self.type(); self.expect(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()[1]
                            d += (x == '(') - (x == ')')
                        res[v] = True
                elif v == 'align':
                    self.next(); res[v] = True
            elif k in ('attr', 'q'):
                self.i += 1
            else:
                return res

    def value(self, ty):
        k, v = self.next()
        if k == 'num': return ('c', int(v))
        if k == 'r': return ('r', v)
        if k == 'g': return ('g', v)
        if k == 'fp': return ('f', v)
        if k == 'str': return ('str', v)
        if k == 'm': return ('meta',)
        if k == 'id':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                self.accept('inbounds'); self.expect('(')
                st = self.type(); self.expect(',')
                bt = self.type(); b = self.value(bt)
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    t = self.type(); idx.append((t, self.value(t)))
                self.expect(')')
                return ('gep', st, b, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('('); t = self.type(); a = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('cast', v, t, a, t2)
            if v in ('sub', 'add'):
                while self.peek()[1] in ('nsw', 'nuw'): self.i += 1
                self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('cbin', v, t, a, b)
        if v == '{' or v == '[':
            end = '}' if v == '{' else ']'
            els = []
            while not self.accept(end):
                t = self.type(); els.append((t, self.value(t))); self.accept(',')
            return ('agg', els)
        if v == '<' and self.accept('{'):
            els = []
            while not self.accept('}'):
                t = self.type(); els.append((t, self.value(t))); self.accept(',')
            self.expect('>')
            return ('agg', els)
        raise IRError('value? %r %r' % (k, v))

class Fn:
    def __init__(self, name, ret, params, body):
        self.name, self.ret, self.params, self.body = name, ret, params, body
        self.blocks = None
        self.order = None

class Module:
    def __init__(self, text):
        self.types, self.globals, self.fns, self.decls = {}, {}, {}, {}
        self._lay = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                self.types[name] = rest
            elif ln.startswith('@'):
                name = re.match(r'@(?:"[^"]*"|[-\w$.]+)', ln).group(0)
                self.globals[name] = ln
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                self.fns['@' + m.group(1)] = (ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
                self.decls['@' + m.group(1)] = ln
            i += 1
        self._fncache, self._tycache, self._gcache = {}, {}, {}

    def resolve(self, t):
        if t.k == 'named':
            r = self._tycache.get(t.name)
            if r is None:
                if t.name not in self.types: raise IRError('unknown type ' + t.name)
                r = P(self, tokenize(self.types[t.name])).type()
                self._tycache[t.name] = r
            return self.resolve(r)
        return t

    def layout(self, t):
        """(size, align, field offsets)"""
        t = self.resolve(t)
        key = id(t)
        r = self._lay.get(key)
        if r: return r[0]
        if t.k == 'int':
            sz = max(1, (t.n + 7) // 8)
            p = 1
            while p < sz: p *= 2
            r = (p, min(p, 16), None)
        elif t.k == 'ptr': r = (8, 8, None)
        elif t.k == 'f32': r = (4, 4, None)
        elif t.k == 'f64': r = (8, 8, None)
        elif t.k == 'f80': r = (16, 16, None)
        elif t.k == 'arr':
            s, a, _ = self.layout(t.el)
            r = (s * t.n, a, None)
        elif t.k == 'struct':
            off, al, offs = 0, 1, []
            for e in t.el:
                s, a, _ = self.layout(e)
                if t.packed: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        else:
            raise IRError('layout of %r' % t)
        self._lay[key] = (r, t)
        return r

    def size(self, t): return self.layout(t)[0]

    def glob(self, name):
        g = self._gcache.get(name)
        if g is not None: return g
        ln = self.globals.get(name)
        if ln is None: return None
        p = P(self, tokenize(ln))
        p.next(); p.expect('=')
        external = False
        while True:
            k, v = p.peek()
            if k == 'id' and v in FN_LINKAGE:
                external |= v in ('external', 'extern_weak'); p.i += 1
                if v == 'thread_local' and p.accept('('):
                    while not p.accept(')'): p.i += 1
                continue
            break
        kind = p.next()[1]
        if kind not in ('global', 'constant'): raise IRError('global ' + ln[:80])
        t = p.type()
        init = None
        if not external: init = p.value(t)
        g = (t, init, kind == 'constant')
        self._gcache[name] = g
        return g

    def fn(self, name):
        f = self._fncache.get(name)
        if f is None:
            if name not in self.fns: return None
            hdr, body = self.fns[name]
            f = self._parse_fn(name, hdr, body)
            self._fncache[name] = f
        return f

    def _parse_fn(self, name, hdr, body):
        p = P(self, tokenize(hdr))
        p.expect('define')
        while True:
            k, v = p.peek()
            if k == 'id' and v in FN_LINKAGE: p.i += 1; continue
            if k == 'id' and (v in PARAM_ATTRS or v in PARAM_ATTRS_ARG): p.attrs(); continue
            break
        ret = p.type()
        p.next(); p.expect('(')
        params = []
        while not p.accept(')'):
            if p.accept('...'): continue
            t = p.type(); at = p.attrs(); nm = p.next()[1]
            params.append((t, nm, at)); p.accept(',')
        f = Fn(name, ret, params, body)
        blocks, cur, order = {}, None, []
        npar = len(params)
        i = 0
        while i < len(body):
            ln = body[i]
            i += 1
            if not ln or ln.isspace(): continue
            if ln[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w$.]+):', ln)
                if not m: raise IRError('block? ' + ln)
                cur = '%' + m.group(1); blocks[cur] = []; order.append(cur)
                continue
            if cur is None:
                # unnamed entry block: its label is the next unnamed number, irrelevant except for phis
                cur = '%%%d' % npar; blocks[cur] = []; order.append(cur)
            s = ln.strip()
            if s.startswith('switch ') and s.endswith('['):
                while not body[i].strip().startswith(']'):
                    s += ' ' + body[i].strip(); i += 1
                s += ' ]'; i += 1
            elif s.startswith(('invoke ', '%')) and ' invoke ' in ' ' + s and ' unwind ' not in s and i < len(body) and body[i].strip().startswith('to label'):
                s += ' ' + body[i].strip(); i += 1
            elif 'landingpad' in s:
                while i < len(body) and body[i].strip().startswith(('catch', 'cleanup', 'filter')):
                    i += 1
                blocks[cur].append(('landingpad',)); continue
            blocks[cur].append(self._inst(s))
        f.blocks, f.order = blocks, order
        return f

    def _inst(self, s):
        try:
            return self._inst0(s)
        except IRError as e:
            return ('unsupported', s[:200] + ' :: ' + str(e))

    def _inst0(self, s):
        p = P(self, tokenize(s))
        dst = None
        if p.peek()[0] == 'r' and p.peek(1)[1] == '=':
            dst = p.next()[1]; p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'): op = p.next()[1]
        if op == 'alloca':
            t = p.type(); n = None
            if p.accept(',') and p.peek()[1] != 'align':
                nt = p.type(); n = p.value(nt)
            return ('alloca', dst, t, n)
        if op == 'load':
            p.accept('volatile')
            t = p.type(); p.expect(','); p.type(); a = p.value(PTR)
            return ('load', dst, t, a)
        if op == 'store':
            p.accept('volatile')
            t = p.type(); v = p.value(t); p.expect(','); p.type(); a = p.value(PTR)
            return ('store', t, v, a)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.i += 1
            t = p.type(); p.expect(','); p.type(); b = p.value(PTR)
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'm': break
                it = p.type(); idx.append((it, p.value(it)))
            return ('gep', dst, t, b, idx)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'arcp', 'afn', 'reassoc'):
                fl.add(p.next()[1])
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return ('bin', dst, op, t, a, b, fl)
        if op == 'fneg':
            t = p.type(); a = p.value(t)
            return ('fneg', dst, t, a)
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'): p.i += 1
            pr = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return (op, dst, pr, t, a, b)
        if op == 'select':
            ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
            return ('select', dst, c, t, a, b)
        if op == 'phi':
            t = p.type(); inc = []
            while p.accept('['):
                v = p.value(t); p.expect(','); inc.append((v, p.next()[1])); p.expect(']'); p.accept(',')
            return ('phi', dst, t, inc)
        if op == 'br':
            if p.accept('label'): return ('br', p.next()[1])
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
            return ('cbr', c, a, b)
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
            cs = []
            while not p.accept(']'):
                p.type(); c = p.value(t); p.expect(','); p.expect('label'); cs.append((c[1], p.next()[1]))
            return ('switch', t, v, d, cs)
        if op == 'ret':
            t = p.type()
            return ('ret', t, None if t.k == 'void' else p.value(t))
        if op in ('call', 'invoke'):
            while True:
                k, v = p.peek()
                if k == 'id' and v in FN_LINKAGE: p.i += 1; continue
                if k == 'id' and (v in PARAM_ATTRS or v in PARAM_ATTRS_ARG): p.attrs(); continue
                break
            t = p.type()
            if p.accept('('):   # function type of varargs callee
                d = 1
                while d:
                    x = p.next()[1]; d += (x == '(') - (x == ')')
            k, v = p.next()
            callee = (k, v)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                if at.k == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        x = p.next()[1]; d += (x == '(') - (x == ')')
                    p.accept(','); args.append((at, ('meta',), {})); continue
                a = p.attrs(); val = p.value(at); args.append((at, val, a)); p.accept(',')
            normal = None
            if op == 'invoke':
                while not p.accept('to'): p.i += 1
                p.expect('label'); normal = p.next()[1]
            return ('call', dst, t, callee, args, normal)
        if op == 'unreachable': return ('unreachable',)
        if op in ('resume', 'catchswitch', 'cleanupret'): return ('dead',)
        if op == 'extractvalue':
            t = p.type(); a = p.value(t); idx = []
            while p.accept(','):
                if p.peek()[0] == 'm': break
                idx.append(int(p.next()[1]))
            return ('extractvalue', dst, t, a, idx)
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.expect(','); et = p.type(); e = p.value(et); idx = []
            while p.accept(','):
                if p.peek()[0] == 'm': break
                idx.append(int(p.next()[1]))
            return ('insertvalue', dst, t, a, et, e, idx)
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek()[1] in ('nsw', 'nuw', 'nneg'): p.i += 1
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return ('cast', dst, op, t, a, t2)
        if op == 'freeze':
            t = p.type(); a = p.value(t)
            return ('freeze', dst, t, a)
        raise IRError('instruction ' + op)
