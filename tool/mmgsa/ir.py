"""Resolved program model over the IR facts: functions, CFG, dominance, access paths, call graph."""
import hashlib, re, sys
from functools import lru_cache
from .build import Build, Broken
sys.setrecursionlimit(20000)

_INT = {}
class E(tuple):
    """hash-consed expression node: equality is identity, order is a structural digest"""
    def __hash__(self): return self.h
    def __eq__(self, o):
        if isinstance(o, E): return self is o
        return tuple.__eq__(self, o)
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self.k < o.k
def mk(*t):
    key = tuple(id(x) if isinstance(x, E) else x for x in t)
    key = (tuple(type(x) is E for x in t), key)
    e = _INT.get(key)
    if e is None:
        e = E(t)
        e.k = hashlib.md5(repr([x.k if isinstance(x, E) else x for x in t]).encode()).hexdigest()
        e.h = int(e.k[:15], 16)
        _INT[key] = e
    return e
def T(t):
    """intern a plain (nested) tuple"""
    if isinstance(t, E): return t
    if isinstance(t, tuple): return mk(*[T(x) for x in t])
    return t

class Ins:
    __slots__ = ('op', 'id', 'ty', 'line', 'a', 'file', 'fn', 'bb', 'pos')
    def __repr__(self): return '<%s %%%d %s:%d>' % (self.op, self.id, self.fn.name, self.line)
    def loc(self):
        f = self.file or self.fn.file
        return '%s:%d' % (short(f), self.line)

def short(f):
    i = f.find('/src/')
    return f[i+1:] if i >= 0 else f

PURE = {'abs', 'labs', 'llabs', 'fabs', 'sqrt', 'cos', 'sin', 'exp', 'log', 'acos', 'atan2', 'pow', 'tan', 'asin', 'atan'}
CASTS = {'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'}
COMM = {'add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'}

class Fn:
    def __init__(self, prog, unit, d):
        self.prog = prog; self.unit = unit; self.name = d['name']; self.file = d['file']; self.line = d['line']
        self.internal = bool(d['internal']); self.ret = d['ret']; self.vararg = d['vararg']
        self.args = d['args']; self.argdi = d['argdi']; self.retdi = d.get('retdi', 'void')
        self.nargs = len(self.args)
        self.names = {int(k): v for k, v in d['names'].items()}
        self.blocks = []; self.by_id = {}; self.preds = []; self.succs = []
        for bi, b in enumerate(d['blocks']):
            L = []
            for p, r in enumerate(b):
                i = Ins(); i.op, i.id, i.ty, i.line = r[0], r[1], r[2], r[3]
                i.file = None
                rest = r[4:]
                if rest and isinstance(rest[-1], dict) and 'file' in rest[-1]: i.file = rest[-1]['file']; rest = rest[:-1]
                i.a = rest; i.fn = self; i.bb = bi; i.pos = p
                L.append(i); self.by_id[i.id] = i
            self.blocks.append(L)
        n = len(self.blocks)
        self.succs = [[] for _ in range(n)]; self.preds = [[] for _ in range(n)]
        for bi in range(n):
            t = self.blocks[bi][-1]
            s = []
            if t.op == 'br': s = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch': s = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == 'invoke': s = [t.a[2], t.a[3]]
            self.succs[bi] = s
            for x in set(s): self.preds[x].append(bi)
        self._expr = {}; self._uses = None; self._dom = None; self._pdom = None
        self._cd = None
    def key(self): return self.unit + ':' + self.name if self.internal or self.name == 'main' else self.name
    def loc(self): return '%s:%d' % (short(self.file), self.line)
    def ins(self):
        for b in self.blocks:
            yield from b
    def calls(self, *names):
        for b in self.blocks:
            for i in b:
                if i.op in ('call', 'invoke'):
                    if not names or self.callee(i) in names: yield i
    def callee(self, i):
        c = i.a[0]
        if isinstance(c, dict) and 'fn' in c: return c['fn']
        return None
    def vname(self, v):
        """source-level name of a value if any"""
        if isinstance(v, int):
            if v in self.names: return self.names[v][0]
            if v < self.nargs: return self.args[v][0]
        return None
    # ------------------------------------------------------------- uses
    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for i in self.ins():
                for o in operands(i):
                    if isinstance(o, int): u.setdefault(o, []).append(i)
            self._uses = u
        return self._uses
    # -------------------------------------------------------- dominance
    def reachable(self, start=0, avoid=()):
        seen = set(); st = [start] if start not in avoid else []
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            for s in self.succs[b]:
                if s not in seen and s not in avoid: st.append(s)
        return seen
    @property
    def idom(self):
        if self._dom is None:
            self._dom = _idoms(len(self.blocks), 0, self.succs, self.preds)
        return self._dom
    def dominates(self, a, b):
        """block a dominates block b"""
        d = self.idom
        while b is not None:
            if a == b: return True
            nb = d.get(b)
            if nb == b: return False
            b = nb
        return False
    def idominates(self, i, j):
        if i.bb == j.bb: return i.pos < j.pos
        return self.dominates(i.bb, j.bb)
    def reaches_again(self, i):
        """can control come back to instruction i after executing it?"""
        seen = set(); st = list(self.succs[i.bb])
        while st:
            b = st.pop()
            if b == i.bb: return True
            if b in seen: continue
            seen.add(b); st += self.succs[b]
        return False
    @property
    def ipdom(self):
        """immediate post-dominators; virtual exit = -1"""
        if self._pdom is None:
            n = len(self.blocks)
            succ = {b: list(self.preds[b]) for b in range(n)}; pred = {b: list(self.succs[b]) for b in range(n)}
            exits = [b for b in range(n) if not self.succs[b]]
            succ[-1] = exits; pred[-1] = []
            for e in exits: pred[e].append(-1)
            self._pdom = _idoms(n, -1, succ, pred)
        return self._pdom
    @property
    def cdeps(self):
        """control dependences: block -> set of (branch block, successor)"""
        if self._cd is None:
            cd = {}
            pd = self.ipdom
            for a in range(len(self.blocks)):
                if len(set(self.succs[a])) < 2: continue
                stop = pd.get(a)
                for s in set(self.succs[a]):
                    b = s
                    while b is not None and b != stop and b != -1:
                        cd.setdefault(b, set()).add((a, s))
                        nb = pd.get(b)
                        if nb == b: break
                        b = nb
            self._cd = cd
        return self._cd
    # ------------------------------------------------------ expressions
    vlocals = False      # give each load of a local variable its own symbol (path evaluation binds it)
    def version_locals(self):
        self.vlocals = True; self._expr = {}
    def expr(self, v):
        """symbolic tree of a value (loads are not versioned)"""
        if isinstance(v, dict):
            return const_expr(v)
        if v in self._expr: return self._expr[v]
        if v < self.nargs:
            e = mk('arg', v); self._expr[v] = e; return e
        i = self.by_id[v]
        self._expr[v] = mk('cyc', v)
        e = self._mk(i)
        self._expr[v] = e
        return e
    def _mk(self, i):
        X = self.expr
        op = i.op
        if op in CASTS: return X(i.a[0][0])
        if op == 'load':
            x = X(i.a[0][0])
            return mk('lv', i.id) if self.vlocals and x[0] == 'loc' else mk('ld', x)
        if op == 'alloca': return mk('loc', i.id)
        if op == 'getelementptr': return gep(self.prog, i.a[0], X(i.a[1]), [X(x) for x in i.a[2]])
        if op == 'call' or op == 'invoke':
            cn = self.callee(i)
            if cn and (cn in PURE or cn.startswith(('llvm.abs.', 'llvm.fabs.'))):
                return mk('pure', 'abs' if 'abs' in cn and 'fabs' not in cn else cn.replace('llvm.fabs.f64', 'fabs'), *[X(x) for x in i.a[1] if x != {'i': 0} or True][:2 if cn in ('pow', 'atan2') else 1])
            return mk('call', self.callee(i) or '*', i.id)
        if op == 'phi': return mk('phi', i.id)
        if op == 'select': return mk('sel', X(i.a[0][0]), X(i.a[0][1]), X(i.a[0][2]))
        if op in ('icmp', 'fcmp'): return mk('cmp', i.a[0], X(i.a[1]), X(i.a[2]))
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'): return mk(op, X(i.a[0][0]))
        if i.a and isinstance(i.a[0], list):
            return binop(op, [X(x) for x in i.a[0]])
        return mk('?', i.id)

def const_expr(v):
    if 'i' in v: return mk('c', v['i'])
    if 'f' in v: return mk('f', v['f'])
    if 'n' in v: return mk('null')
    if 'fn' in v: return mk('fn', v['fn'])
    if 'g' in v: return mk('g', v['g'])
    if 'ge' in v: return gep(None, v['ge'][0], const_expr(v['ge'][1]), [const_expr(x) for x in v['ge'][2]])
    if 'ce' in v: return mk('ce', v['ce'][0], *[const_expr(x) for x in v['ce'][1]])
    return mk('k')

def binop(op, xs):
    if op in ('add', 'sub', 'mul') and all(x[0] == 'c' for x in xs) and len(xs) == 2:
        a, b = xs[0][1], xs[1][1]
        return mk('c', a + b if op == 'add' else a - b if op == 'sub' else a * b)
    if op == 'sub' and xs[1][0] == 'c': op, xs = 'add', [xs[0], mk('c', -xs[1][1])]
    if op == 'shl' and xs[1][0] == 'c': op, xs = 'mul', [xs[0], mk('c', 1 << xs[1][1])]
    if op in COMM and op in ('add', 'mul'):
        # flatten
        parts = []
        for x in xs:
            if x[0] == op: parts += list(x[1:])
            else: parts.append(x)
        cs = [p for p in parts if p[0] == 'c']; r = [p for p in parts if p[0] != 'c']
        if cs:
            k = 0 if op == 'add' else 1
            for c in cs: k = k + c[1] if op == 'add' else k * c[1]
            if k != (0 if op == 'add' else 1) or not r: r.append(mk('c', k))
        if len(r) == 1: return r[0]
        # distribute constants over sums
        if op == 'mul' and len(r) == 2 and r[1][0] == 'c' and r[0][0] == 'add':
            return binop('add', [binop('mul', [t, r[1]]) for t in r[0][1:]])
        return mk(op, *sorted(r))
    if op in COMM: xs = sorted(xs)
    return mk(op, *xs)

STRUCTS = {}
def gep(prog, ty, base, idx):
    """normalise a getelementptr: ('idx', base, i) and ('fld', base, struct, field)"""
    e = base
    cur = ty
    first = idx[0]
    if first != ('c', 0):
        e = addidx(e, first)
    for x in idx[1:]:
        if cur.startswith('['):
            m = re.match(r'\[(\d+) x (.*)\]$', cur)
            cur = m.group(2)
            e = mk('idx', e, x)
        else:
            fs = STRUCTS.get(cur)
            if fs is None or x[0] != 'c':
                e = mk('fld', e, cur, '?'); cur = ''
            else:
                f = fs[x[1]]
                e = mk('fld', e, cur, f[0]); cur = f[1]
    return e
def addidx(e, x):
    # pointer arithmetic on an element: &p[a] + b
    if e[0] == 'idx': return mk('idx', e[1], binop('add', [e[2], x]))
    return mk('idx', e, x)

def operands(i):
    a = i.a
    op = i.op
    if op in ('call', 'invoke'): return [a[0]] + a[1]
    if op == 'getelementptr': return [a[1]] + a[2]
    if op in ('icmp', 'fcmp'): return [a[1], a[2]]
    if op == 'br': return [a[0]] if a[0] is not None else []
    if op == 'switch': return [a[0]]
    if op == 'phi': return [x[0] for x in a[0]]
    if op == 'alloca': return [a[1]]
    if a and isinstance(a[0], list): return a[0]
    return []

def _idoms(n, root, succs, preds):
    order = []; seen = set(); st = [(root, iter(succs[root]))]; seen.add(root)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succs[s]))); break
        else:
            order.append(b); st.pop()
    order.reverse()
    num = {b: k for k, b in enumerate(order)}
    idom = {root: root}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps: continue
            nw = ps[0]
            for p in ps[1:]:
                x, y = p, nw
                while x != y:
                    while num[x] > num[y]: x = idom[x]
                    while num[y] > num[x]: y = idom[y]
                nw = x
            if idom.get(b) != nw: idom[b] = nw; ch = True
    idom[root] = None
    return idom

class Program:
    def __init__(self, variant='dbg', cpp=False, build=None):
        self.build = build or Build()
        self.variant = variant
        self.raw = self.build.facts(variant, cpp)
        self.fns = {}; self.by_unit = {}; self.globals = {}; self.enums = {}; self.sizes = {}
        for u, d in self.raw.items():
            for s, fl in d['structs'].items():
                if s not in STRUCTS or any(re.match(r'f\d+$', x[0]) for x in STRUCTS[s]): STRUCTS[s] = fl
            self.sizes.update(d['sizes'])
            for k, v in d['enums'].items(): self.enums.setdefault(k, v)
        self.structs = STRUCTS
        for u, d in self.raw.items():
            self.by_unit[u] = []
            for g in d['globals']:
                g['unit'] = u
                self.globals[(u, g['name'])] = g
                if not g['internal'] and not g['decl']: self.globals[g['name']] = g
            for f in d['functions']:
                F = Fn(self, u, f)
                k = F.key()
                if k in self.fns and not F.internal:
                    # duplicate definition of an inline function: keep the first
                    self.by_unit[u].append(self.fns[k]); continue
                self.fns[k] = F; self.by_unit[u].append(F)
        if len(self.fns) < 2000: raise Broken('only %d functions analysed' % len(self.fns))
        self._cg = None
    def fn(self, name, unit=None):
        if unit and unit + ':' + name in self.fns: return self.fns[unit + ':' + name]
        f = self.fns.get(name)
        if f is None:
            c = [x for k, x in self.fns.items() if k.endswith(':' + name)]
            if len(c) >= 1: f = c[0]
        return f
    def need(self, name, unit=None):
        f = self.fn(name, unit)
        if f is None: raise Broken('anchor function %s not found' % name)
        return f
    def resolve(self, caller, name):
        return self.fns.get(caller.unit + ':' + name) or self.fns.get(name)
    def string(self, fn, v):
        """constant C string behind an operand"""
        e = v
        if isinstance(v, dict):
            if 'ge' in v: return self.string(fn, v['ge'][1])
            if 'g' in v:
                g = self.globals.get((fn.unit, v['g'])) or self.globals.get(v['g'])
                if g and g['init']:
                    it = g['init']
                    if 's' in it: return it['s']
                    if 'a' in it and all('i' in x for x in it['a']): return ''.join(chr(x['i'] & 255) for x in it['a']).split('\0')[0]
                    if 'z' in it: return ''
        return None
    def targets(self, fn, i):
        """possible callees of a call (function pointers resolved by name of the pointer global / any store)"""
        c = i.a[0]
        if isinstance(c, dict):
            if 'fn' in c:
                t = self.resolve(fn, c['fn']); return [t] if t else []
            return []
        e = fn.expr(c)
        if e[0] == 'ld' and e[1][0] == 'g':
            return [t for t in self.fptr.get(e[1][1], [])]
        if e[0] == 'arg':
            return list(self.argptr.get((fn.key(), e[1]), []))
        # unknown pointer: every address-taken function with the same arity and return type
        return [t for t in self.addrtaken if t.nargs == len(i.a[1]) and t.ret == i.ty]
    @property
    def fptr(self):
        self._scan(); return self._fptr
    @property
    def argptr(self):
        self._scan(); return self._argptr
    @property
    def addrtaken(self):
        self._scan(); return self._at
    def _scan(self):
        if hasattr(self, '_fptr'): return
        fp = {}; ap = {}; at = set()
        def funcs(F, v, seen=None):
            if isinstance(v, dict):
                if 'fn' in v:
                    t = self.resolve(F, v['fn']); return [t] if t else []
                return []
            i = F.by_id.get(v)
            if i is None or i.ty != 'ptr': return []
            if seen is None: seen = set()
            if v in seen: return []
            seen.add(v)
            if i.op in CASTS: return funcs(F, i.a[0][0], seen)
            if i.op == 'phi': return [t for x in i.a[0] for t in funcs(F, x[0], seen)]
            if i.op == 'select': return funcs(F, i.a[0][1], seen) + funcs(F, i.a[0][2], seen)
            return []
        for k, F in self.fns.items():
            for i in F.ins():
                if i.op == 'store':
                    ts = funcs(F, i.a[0][0])
                    if ts:
                        at.update(ts)
                        p = F.expr(i.a[0][1])
                        if p[0] == 'g': fp.setdefault(p[1], [])
                        if p[0] == 'g': fp[p[1]] += [t for t in ts if t not in fp[p[1]]]
                elif i.op in ('call', 'invoke'):
                    for n, x in enumerate(i.a[1]):
                        ts = funcs(F, x)
                        if ts:
                            at.update(ts)
                            c = F.callee(i)
                            t = self.resolve(F, c) if c else None
                            if t: ap.setdefault((t.key(), n), set()).update(ts)
        for u, d in self.raw.items():
            for g in d['globals']:
                def w(x):
                    if isinstance(x, dict):
                        if 'fn' in x:
                            t = self.fns.get(u + ':' + x['fn']) or self.fns.get(x['fn'])
                            if t: at.add(t); fp.setdefault(g['name'], []).append(t)
                        for y in x.values(): w(y)
                    elif isinstance(x, list):
                        for y in x: w(y)
                w(g['init'])
        self._fptr, self._argptr, self._at = fp, ap, at
    @property
    def cg(self):
        if self._cg is None:
            self._cg = {}
            for k, F in self.fns.items():
                s = set()
                for i in F.calls():
                    for t in self.targets(F, i): s.add(t.key())
                self._cg[k] = s
        return self._cg
    def reach(self, roots, stop=()):
        seen = set(); st = list(roots)
        while st:
            k = st.pop()
            if k in seen or k in stop: continue
            seen.add(k); st += self.cg.get(k, ())
        return seen
    @property
    def callers(self):
        if not hasattr(self, '_callers'):
            c = {}
            for k, s in self.cg.items():
                for t in s: c.setdefault(t, set()).add(k)
            self._callers = c
        return self._callers

def pp(fn, e, d=0):
    """readable rendering of an expression"""
    if d > 12: return '...'
    t = e[0]
    if t == 'arg': return fn.args[e[1]][0] if fn and isinstance(e[1], int) and e[1] < fn.nargs else 'arg%s' % e[1]
    if t == 'c': return str(e[1])
    if t == 'f': return e[1]
    if t == 'null': return 'NULL'
    if t in ('fn', 'g'): return e[1]
    if t == 'ld':
        x = e[1]
        if x[0] in ('fld', 'idx', 'g', 'loc'): return pp(fn, x, d + 1)
        return '*' + pp(fn, x, d + 1)
    if t == 'fld': return pp(fn, e[1], d + 1) + '.' + e[3]
    if t == 'idx': return pp(fn, e[1], d + 1) + '[' + pp(fn, e[2], d + 1) + ']'
    if t == 'loc': 
        return (fn.names.get(e[1], ('loc%s' % e[1],))[0]) if fn else 'loc%s' % e[1]
    if t == 'phi': return (fn.names.get(e[1], ('phi%s' % e[1],))[0]) if fn else 'phi%s' % e[1]
    if t == 'pure': return '%s(%s)' % (e[1], ', '.join(pp(fn, x, d + 1) for x in e[2:]))
    if t == 'call': return '%s()#%s' % (e[1], e[2])
    if t == 'cmp': return '(%s %s %s)' % (pp(fn, e[2], d + 1), e[1], pp(fn, e[3], d + 1))
    return '%s(%s)' % (t, ', '.join(pp(fn, x, d + 1) if isinstance(x, tuple) else str(x) for x in e[1:]))
