"""Disjunctive constant propagation through a function and the functions it calls: the memory cells of interest and the
registers hold constants or symbolic values (access paths of the entry state), unknown branches split the state, equal states
are merged at block entries."""
from .ir import *
from .ir import CASTS, operands, gep, const_expr, binop
from .peval import fold

TOP = mk('top')

def parents(p):
    while True:
        yield p
        if p[0] in ('idx', 'fld'): p = p[1]
        else: return

def under(p, pre):
    """p is inside the object pre"""
    return any(q is pre for q in parents(p))

def rebase(p, a, b):
    if p is a: return b
    if p[0] == 'idx': return mk('idx', rebase(p[1], a, b), p[2])
    if p[0] == 'fld': return mk('fld', rebase(p[1], a, b), *p[2:])
    return p

def elems(x):
    """elements of a constant aggregate (byte arrays that end in 0 are dumped as strings)"""
    if isinstance(x, dict):
        if 'a' in x: return x['a']
        if 's' in x: return [{'i': ord(c)} for c in x['s']] + [{'i': 0}]
    return None

class State:
    __slots__ = ('mem', 'defs', 'facts', 'cnt', 'log')
    def __init__(self): self.mem = {}; self.defs = (); self.facts = frozenset(); self.cnt = {}; self.log = ()
    def copy(self):
        s = State(); s.mem = dict(self.mem); s.defs = self.defs; s.facts = self.facts; s.cnt = dict(self.cnt); s.log = self.log; return s
    def key(self): return (frozenset(self.mem.items()), self.defs, self.facts, frozenset(self.cnt.items()), self.log)
    def load(self, p):
        v = self.mem.get(p)
        if v is not None: return v
        for pre, kind, src in reversed(self.defs):
            if under(p, pre):
                if kind == 'zero': return mk('c', 0)
                if kind == 'havoc': return mk('hv', p, src)
                return mk('ld', rebase(p, pre, src)) if not isinstance(src, State) else src.load(p)
        return mk('ld', p)
    def store(self, p, v): self.mem[p] = v
    def wipe(self, pre, kind, src):
        for q in [q for q in self.mem if under(q, pre)]: del self.mem[q]
        self.defs = tuple(d for d in self.defs if not under(d[0], pre)) + ((pre, kind, src),)
    def copyobj(self, dst, src):
        items = [(rebase(q, src, dst), v) for q, v in self.mem.items() if under(q, src)]
        # where the cells of src that were never written come from
        o = src
        hit = None
        for pre, kind, s in reversed(self.defs):
            if under(src, pre): hit = (kind, rebase(src, pre, s) if kind == 'copy' else s); break
        if hit is None: self.wipe(dst, 'copy', src)
        elif hit[0] == 'copy': self.wipe(dst, 'copy', hit[1])
        else: self.wipe(dst, hit[0], hit[1])
        for q, v in items: self.mem[q] = v

def liveness(F):
    if getattr(F, '_live', None) is not None: return F._live
    n = len(F.blocks)
    use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]; pu = [set() for _ in range(n)]
    for b in range(n):
        for i in F.blocks[b]:
            if i.op == 'phi':
                for v, q in i.a[0]:
                    if isinstance(v, int): pu[q].add(v)
            else:
                ops = list(operands(i))
                if i.op == 'ret' : ops = [x for x in flat(i.a) if isinstance(x, int) and not isinstance(x, bool)]
                for o in ops:
                    if isinstance(o, int) and o not in dfn[b]: use[b].add(o)
            dfn[b].add(i.id)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in reversed(range(n)):
            o = set(pu[b])
            for s in F.succs[b]: o |= live[s] - {i.id for i in F.blocks[s] if i.op == 'phi'}
            new = use[b] | (o - dfn[b]) | {i.id for i in F.blocks[b] if i.op == 'phi'}
            if new != live[b]: live[b] = new; ch = True
    F._live = live
    return live

def flat(a):
    for x in a:
        if isinstance(x, (list, tuple)): yield from flat(x)
        else: yield x

class Interp:
    """hooks: track(place) -> keep the store; decide(F, cond, state) -> True/False/None (split) / 'rec' (split, remember);
    call(F, ins, callee, args, state) -> None (default), 'inline', 'dead', or a value"""
    def __init__(self, P, track=None, decide=None, call=None, budget=200000):
        self.P = P; self.track = track or (lambda p: True); self.decide = decide or (lambda F, c, s: None); self.call = call or (lambda *a: None)
        self.budget = budget; self.steps = 0; self.depth = 0; self.arrays = {}; self.cells = {}
    def ev(self, v, env, F):
        if isinstance(v, dict):
            return self.conste(v)
        return env.get(v, TOP)
    def conste(self, v):
        if 'ge' in v: return gep(self.P, v['ge'][0], self.conste(v['ge'][1]), [self.conste(x) for x in v['ge'][2]])
        return const_expr(v)
    def cond(self, F, c, st):
        k = fold(c, {})
        if k is not None: return bool(k)
        if c is TOP: return None
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[2] is c[3]: return c[1] == 'eq'
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3] == ('null',) and c[2][0] in ('loc', 'idx', 'fld', 'fn'): return c[1] == 'ne'
        for e, v in st.facts:
            if e is c: return v
        return self.decide(F, c, st)
    def run(self, F, args, st):
        """-> list of (returned value, state)"""
        out = []; seen = set()
        self.depth += 1
        frame = self.depth
        env0 = {k: a for k, a in enumerate(args)}
        work = [(0, 0, -1, env0, st)]; split = False
        live = liveness(F)
        while work:
            b, pos, prev, env, st = work.pop()
            self.steps += 1
            if self.steps > self.budget: raise Broken('abstract interpretation of %s: budget' % F.name)
            blk = F.blocks[b]
            if pos == 0:
                new = {}
                for i in blk:
                    if i.op != 'phi': break
                    for v, q in i.a[0]:
                        if q == prev: new[i.id] = self.ev(v, env, F)
                    pos += 1
                L = live[b]
                env = {k: v for k, v in env.items() if k in L or k < F.nargs}
                env.update(new)
                # one path only so far: nothing to merge with (loops are bounded by the budget)
                if split and len(F.preds[b]) > 1:
                    key = (b, frozenset(env.items()), st.key())
                    if key in seen: continue
                    seen.add(key)
            if work: split = True
            env = dict(env)
            dead = False
            while pos < len(blk):
                i = blk[pos]; op = i.op
                if op == 'load':
                    p = self.ev(i.a[0][0], env, F)
                    env[i.id] = TOP if i.ty == 'double' or p is TOP else self.load(F, p, st)
                elif op == 'store':
                    p = self.ev(i.a[0][1], env, F)
                    if p is not TOP and self.track(p): st.store(p, self.ev(i.a[0][0], env, F))
                elif op == 'getelementptr':
                    base = self.ev(i.a[1], env, F); ix = [self.ev(x, env, F) for x in i.a[2]]
                    env[i.id] = TOP if base is TOP else self.gepv(F, i.a[0], base, ix)
                elif op == 'alloca': env[i.id] = mk('loc', F.name, i.id, frame)
                elif op in ('sitofp', 'fmul') and all(x[0] in ('c', 'cf') for x in [self.ev(y, env, F) for y in i.a[0]]):
                    # integers below 2^26 in absolute value: the product is exact
                    xs = [self.ev(y, env, F)[1] for y in i.a[0]]
                    env[i.id] = mk('cf', xs[0]) if op == 'sitofp' else mk('cf', xs[0] * xs[1])
                elif op in CASTS: env[i.id] = self.ev(i.a[0][0], env, F)
                elif op in ('icmp', 'fcmp'):
                    a, c = self.ev(i.a[1], env, F), self.ev(i.a[2], env, F)
                    num = lambda x: x[1] if x[0] == 'cf' else float(x[1]) if x[0] == 'f' else None
                    if op == 'fcmp' and 'cf' in (a[0], c[0]):
                        p, q = num(a), num(c)
                        r = None if p is None or q is None else {'gt': p > q, 'ge': p >= q, 'lt': p < q, 'le': p <= q, 'eq': p == q, 'ne': p != q}.get(i.a[0][-2:])
                        env[i.id] = TOP if r is None else mk('c', int(r))
                    else: env[i.id] = TOP if a is TOP or c is TOP else self.simp(mk('cmp', i.a[0], a, c))
                elif op == 'select':
                    c = self.ev(i.a[0][0], env, F); r = self.cond(F, c, st)
                    if isinstance(r, tuple): c = r[1]; r = 'rec'
                    if r is True or r is False: env[i.id] = self.ev(i.a[0][1 if r else 2], env, F)
                    else:
                        for k in (True, False):
                            s2 = st.copy(); e2 = dict(env); e2[i.id] = self.ev(i.a[0][1 if k else 2], env, F)
                            if r == 'rec': s2.facts = s2.facts | {(c, k)}
                            work.append((b, pos + 1, prev, e2, s2))
                        dead = True; break
                elif op in ('call', 'invoke'):
                    r = self.docall(F, i, env, st)
                    if r == 'dead': dead = True; break
                    if isinstance(r, list):
                        for v, s2 in r:
                            e2 = dict(env); e2[i.id] = v if v is not None else TOP
                            work.append((b, pos + 1, prev, e2, s2))
                        dead = True; break
                    env[i.id] = r
                elif op in ('br', 'switch', 'ret', 'unreachable'): break
                elif i.ty == 'double': env[i.id] = TOP
                elif i.a and isinstance(i.a[0], list):
                    xs = [self.ev(x, env, F) for x in i.a[0]]
                    if any(x is TOP for x in xs): env[i.id] = mk('c', 0) if op == 'and' and mk('c', 0) in xs else TOP
                    elif len(xs) == 2 and all(x[0] == 'c' for x in xs):
                        p, q = xs[0][1], xs[1][1]
                        r = {'and': lambda: p & q, 'or': lambda: p | q, 'xor': lambda: p ^ q, 'shl': lambda: p << q, 'lshr': lambda: p >> q, 'ashr': lambda: p >> q, 'add': lambda: p + q, 'sub': lambda: p - q,
                             'mul': lambda: p * q, 'sdiv': lambda: int(p / q), 'srem': lambda: p - q * int(p / q), 'udiv': lambda: p // q, 'urem': lambda: p % q}.get(op)
                        env[i.id] = mk('c', r()) if r and not (op in ('sdiv', 'srem', 'udiv', 'urem') and q == 0) else TOP
                    else: env[i.id] = self.simp(binop(op, xs))
                else: env[i.id] = TOP
                pos += 1
            if dead: continue
            t = blk[-1]
            if t.op == 'ret':
                a = [x for x in flat(t.a)] if t.a else []
                v = None
                if t.a and t.a[0] not in ([], None): v = self.ev(t.a[0][0] if isinstance(t.a[0], list) else t.a[0], env, F)
                out.append((v, st))
            elif t.op == 'br' and t.a[0] is not None:
                c = self.ev(t.a[0], env, F); r = self.cond(F, c, st)
                if isinstance(r, tuple):
                    c = r[1]; r = 'rec'
                for k in ((True, False) if r not in (True, False) else (r,)):
                    s2 = st
                    if r not in (True, False): s2 = st.copy()
                    if r == 'rec': s2.facts = st.facts | {(c, k)}
                    work.append((t.a[1] if k else t.a[2], 0, b, env, s2))
            elif t.op == 'switch':
                e = self.ev(t.a[0], env, F)
                k = fold(e, {}) if e is not TOP else None
                tg = list(dict.fromkeys([t.a[1]] + [x for _, x in t.a[2]])) if k is None else ([x for n, x in t.a[2] if n == k] or [t.a[1]])
                for n, s in enumerate(tg): work.append((s, 0, b, env, st.copy() if n else st))
            elif t.op != 'unreachable':
                for s in F.succs[b]: work.append((s, 0, b, env, st))
        self.depth -= 1
        res = []; ks = set()
        for v, s in out:
            for q in [q for q in s.mem if any(x[0] == 'loc' and x[3] == frame for x in parents(q))] if self.depth else []: del s.mem[q]
            k = (v, s.key())
            if k not in ks: ks.add(k); res.append((v, s))
        return res
    def simp(self, e):
        if e[0] in ('or', 'and') and len(e) == 3 and e[1][0] == 'c': e = mk(e[0], e[2], e[1])
        if e[0] in ('or', 'and') and len(e) == 3 and e[2][0] == 'c':
            if e[0] == 'or' and e[2][1] == 0: return e[1]
            if e[1][0] == e[0] and len(e[1]) == 3 and e[1][2][0] == 'c':
                e = mk(e[0], e[1][1], mk('c', e[1][2][1] | e[2][1] if e[0] == 'or' else e[1][2][1] & e[2][1]))
        k = fold(e, {})
        return mk('c', int(k)) if k is not None else e
    def gepv(self, F, ty, base, ix):
        self.zero = ix[0] == ('c', 0)
        return gep(self.P, ty, self.decay(F, ty, base), ix)
    def decay(self, F, ty, base):
        """pointer to a row of a constant table used as pointer to its first element; array base used as its element 0"""
        if self.arrays.get(base) == ty: return mk('idx', base, mk('c', 0)) if self.zero else base
        if ty[0] != 'i': return base
        q = base; n = 0
        while q[0] == 'idx': n += 1; q = q[1]
        if q[0] == 'g':
            g = self.P.globals.get((F.unit, q[1]))
            x = g['init'] if g and g['const'] else None
            while n and elems(x): x = elems(x)[0]; n -= 1
            while elems(x):
                base = mk('idx', base, mk('c', 0)); x = elems(x)[0]
        return base
    def load(self, F, p, st):
        q = p; ix = []
        while q[0] == 'idx': ix.append(q[2]); q = q[1]
        if q[0] == 'g':
            g = self.P.globals.get((F.unit, q[1]))
            if g and g['const']:
                x = g['init']
                for k in reversed(ix):
                    if k[0] != 'c' or not elems(x) or not 0 <= k[1] < len(elems(x)): return TOP
                    x = elems(x)[k[1]]
                if isinstance(x, dict) and 'i' in x: return mk('c', x['i'])
                return TOP
        v = st.load(p)
        if v[0] == 'ld' and v[1] is not p and list(parents(v[1]))[-1][0] == 'g': return self.load(F, v[1], st)
        return v
    def docall(self, F, i, env, st):
        n = F.callee(i); args = [self.ev(a, env, F) for a in i.a[1]]
        if n is None:
            return TOP
        if n.startswith('llvm.'):
            if n.startswith(('llvm.memcpy', 'llvm.memmove')): self.memcpy(args, st); return TOP
            if n.startswith('llvm.memset'):
                d = args[0]
                if d is not TOP and self.track(d):
                    if d[0] == 'idx' and d[2] == ('c', 0): d = d[1]
                    st.wipe(d, 'zero' if args[1] == ('c', 0) else 'havoc', i.id)
                return TOP
            if n.startswith('llvm.abs') and args[0][0] == 'c': return mk('c', abs(args[0][1]))
            return TOP
        if n in ('memcpy', 'memmove'): self.memcpy(args, st); return args[0]
        r = self.call(F, i, n, args, st)
        if r == 'inline':
            G = self.P.resolve(F, n)
            if G is not None: return self.run(G, args, st)
            r = None
        if r == 'dead': return 'dead'
        if r is not None: return r
        for a in args:
            if a is TOP: continue
            ps = list(parents(a))
            if ps[-1][0] == 'loc' or a in st.mem and False:
                q = a[1] if a[0] == 'idx' and a[2] == ('c', 0) else a
                st.wipe(q, 'havoc', i.id)
        c = st.cnt.get(i.id, 0); st.cnt[i.id] = c + 1
        return mk('call', n, i.id, c)
    def memcpy(self, args, st):
        d, s, n = args[:3]
        if d is TOP or s is TOP or not self.track(d): return
        size = n[1] if n[0] == 'c' else None
        r = d[1] if d[0] == 'idx' else d
        if r in self.cells and size is not None:
            o = lambda p: p[2][1] if p[0] == 'idx' and p[2][0] == 'c' else None
            if o(d) is not None and o(s) is not None and s[1] in self.cells:
                w = self.cells[r]
                vals = [st.load(mk('idx', s[1], mk('c', o(s) + k))) for k in range(size // w)]
                for k, v in enumerate(vals): st.mem[mk('idx', r, mk('c', o(d) + k))] = v
                return
            raise Broken('copy of table cells with unknown position')
        # whole arrays: pointers to their first elements
        if self.arrays.get(d): d = mk('idx', d, mk('c', 0))
        if self.arrays.get(s): s = mk('idx', s, mk('c', 0))
        def arr(p): return p[0] == 'idx' and p[2] == ('c', 0) and (size is None or size not in self.structsizes())
        if arr(d) and d[0] == 'idx': d = d[1]
        if arr(s): s = s[1]
        st.copyobj(d, s)
    def structsizes(self):
        return set(v for v in self.P.sizes.values() if isinstance(v, int))

def relevant_locals(F):
    """stack variables whose content (not only conditions on it) matters: used as index, stored, passed on"""
    if getattr(F, '_rel', None) is not None: return F._rel
    base = {}
    for i in F.ins():
        if i.op == 'alloca': base[i.id] = i.id
    ch = True
    while ch:
        ch = False
        for i in F.ins():
            if i.op in ('getelementptr', 'bitcast') :
                o = i.a[1] if i.op == 'getelementptr' else i.a[0][0]
                if o in base and i.id not in base: base[i.id] = base[o]; ch = True
    rel = set()
    carry = {}
    for i in F.ins():
        if i.op == 'load' and isinstance(i.a[0][0], int) and i.a[0][0] in base: carry.setdefault(i.id, set()).add(base[i.a[0][0]])
        if i.op in ('call', 'invoke') and not (F.callee(i) or '').startswith(('llvm.memset', 'llvm.dbg', 'llvm.lifetime')):
            for a in i.a[1]:
                if isinstance(a, int) and a in base: rel.add(base[a])
        if i.op == 'store' and isinstance(i.a[0][0], int) and i.a[0][0] in base: rel.add(base[i.a[0][0]])
    ch = True
    while ch:
        ch = False
        for i in F.ins():
            src = set()
            for o in operands(i):
                if isinstance(o, int) and o in carry: src |= carry[o]
            if not src: continue
            if i.op in ('load',): continue
            if i.op in ('store', 'call', 'invoke', 'getelementptr', 'ret', 'switch'):
                if not src <= rel: rel |= src
            if i.op in ('icmp', 'fcmp', 'br', 'store'): continue
            if not src <= carry.get(i.id, set()): carry.setdefault(i.id, set()).update(src); ch = True
    F._rel = rel
    return rel
