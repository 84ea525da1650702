"""Byte order of binary files. The byte reversals are recognised by what they do (labels on bytes followed through the routine). The foreign-order
flag is derived from the comparison of the first number of a file with the reversed one: the variables and out-parameters set on that side, and
then everything they are passed to. Each routine that reads numbers is then analysed once for either order (branches on the flag and on that
comparison are decided by it): in a foreign file a number counts as raw from the read until it is reversed, and may until then only be copied or
reversed; in a native file no reversal is reachable. Raw cells and values are followed into and out of the routines they are passed to."""
from ..ir import *
from ..effects import root
from . import a05

MAGIC = 1 << 24
SCALAR = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8}
PRINT = {'printf', 'fprintf', 'snprintf', '__printf_chk', '__fprintf_chk', 'MMG5_swap'}

def tysize(t):
    return SCALAR.get(t)

# ------------------------------------------------------------------ what a routine does to the bytes of its argument
def bytemap(F):
    """the tuple of byte labels a one-argument routine returns, or None if it is not a routine that only moves bytes"""
    if F.nargs != 1 or F.ret not in SCALAR or any(i.op == 'call' and not (F.callee(i) or '').startswith('llvm.') for i in F.ins()): return None
    if sum(1 for i in F.ins() if i.op == 'store' and i.a[1] == 'i8') == 0 and not any(i.op in ('lshr', 'ashr', 'or') for i in F.ins()): return None
    n = SCALAR[F.ret]; mem = {}; env = {0: [('in', k) for k in range(n)]}; b = 0; prev = None; steps = 0
    sizes = {}
    def V(v):
        if isinstance(v, dict): return v['i'] if 'i' in v else None
        return env.get(v)
    while True:
        new = {}
        for i in F.blocks[b]:
            if i.op == 'phi':
                for v, p in i.a[0]:
                    if p == prev: new[i.id] = V(v)
        env.update(new)
        nxt = None
        for i in F.blocks[b]:
            steps += 1
            if steps > 3000: return None
            a = i.a
            if i.op == 'phi': continue
            if i.op == 'alloca':
                env[i.id] = ('p', i.id, 0); sizes[i.id] = SCALAR.get(a[0])
            elif i.op == 'getelementptr':
                p = V(a[1]); k = V(a[2][0]) if len(a[2]) == 1 else None
                env[i.id] = ('p', p[1], p[2] + k * SCALAR[a[0]]) if isinstance(p, tuple) and isinstance(k, int) and a[0] in SCALAR else None
            elif i.op == 'store':
                p = V(a[0][1]); v = V(a[0][0]); w = SCALAR.get(a[1])
                if not isinstance(p, tuple) or w is None: return None
                if p[2] < 0 or sizes[p[1]] is None or p[2] + w > sizes[p[1]]: return ('outside', i)
                if isinstance(v, int): v = [('const', (v >> (8 * k)) & 255) for k in range(w)]
                if not isinstance(v, list): return None
                for k in range(w): mem[p[1], p[2] + k] = v[k]
            elif i.op == 'load':
                p = V(a[0][0]); w = i_width(F, i)
                if not isinstance(p, tuple): return None
                w = w or 1
                if p[2] < 0 or sizes[p[1]] is None or p[2] + w > sizes[p[1]]: return ('outside', i)
                bs = [mem.get((p[1], p[2] + k), ('undef',)) for k in range(w)]
                env[i.id] = bs
            elif i.op in ('sext', 'zext'):
                v = V(a[0][0]); env[i.id] = v if isinstance(v, int) else (v + [('const', 0)] * 8 if i.op == 'zext' else v + [('sign', v[-1])] * 8) if isinstance(v, list) else None
            elif i.op == 'trunc': 
                v = V(a[0][0]); env[i.id] = v
            elif i.op in ('add', 'sub', 'mul'):
                x, y = V(a[0][0]), V(a[0][1])
                if isinstance(x, int) and isinstance(y, int): env[i.id] = x + y if i.op == 'add' else x - y if i.op == 'sub' else x * y
            elif i.op in ('shl', 'lshr', 'ashr'):
                x, y = V(a[0][0]), V(a[0][1])
                if isinstance(x, list) and isinstance(y, int) and y % 8 == 0:
                    x = (x + [('const', 0)] * 8)[:max(n, len(x))]; k = y // 8
                    fill = ('const', 0) if i.op != 'ashr' else ('sign', x[-1])
                    env[i.id] = ([fill] * k + x)[:len(x)] if i.op == 'shl' else x[k:] + [fill] * k
                else: env[i.id] = None
            elif i.op == 'and':
                x, y = V(a[0][0]), V(a[0][1])
                if isinstance(y, list): x, y = y, x
                if isinstance(x, list) and isinstance(y, int) and all(((y >> (8 * k)) & 255) in (0, 255) for k in range(len(x))):
                    env[i.id] = [x[k] if (y >> (8 * k)) & 255 else ('const', 0) for k in range(len(x))]
                else: env[i.id] = None
            elif i.op in ('or', 'xor'):
                x, y = V(a[0][0]), V(a[0][1])
                if isinstance(x, list) and isinstance(y, list):
                    r = []
                    for p, q in zip(x, y):
                        if p == ('const', 0): r.append(q)
                        elif q == ('const', 0): r.append(p)
                        else: return None
                    env[i.id] = r
                else: env[i.id] = None
            elif i.op == 'icmp':
                x, y = V(a[1]), V(a[2])
                if isinstance(x, int) and isinstance(y, int):
                    env[i.id] = int({'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y, 'eq': x == y, 'ne': x != y, 'ult': 0 <= x < y if y >= 0 else True,
                                     'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[a[0]])
            elif i.op == 'br':
                if a[0] is None: nxt = a[1]
                else:
                    v = V(a[0])
                    if not isinstance(v, int): return None
                    nxt = a[1] if v else a[2]
            elif i.op == 'ret':
                v = V(a[0][0]) if a and isinstance(a[0], list) else None
                return tuple(v[:n]) if isinstance(v, list) else None
            elif i.op == 'call': pass
            else: return None
        if nxt is None: return None
        prev, b = b, nxt

def i_width(F, i):
    """bytes of a load, from how its value is used or stored"""
    for j in F.uses.get(i.id, ()) if isinstance(F.uses, dict) else F.uses(i.id):
        if j.op == 'store' and j.a[0][0] == i.id: return SCALAR.get(j.a[1])
        if j.op in CASTS and len(j.a) > 1: return SCALAR.get(j.a[1])
        if j.op == 'ret': return SCALAR.get(F.ret)
    return None

# ------------------------------------------------------------------ the flag
def cellsread(P, F):
    return {F.expr(i.a[1][0]) for i in F.calls('fread')}

def magiccmp(F, i):
    """cell compared with the reversed 1, if i is such a comparison"""
    if i.op != 'icmp': return None
    a, b = F.expr(i.a[1]), F.expr(i.a[2])
    if a[0] == 'c': a, b = b, a
    return a[1] if b == ('c', MAGIC) and a[0] == 'ld' else None

class Flags:
    def __init__(self, P, fns):
        self.P = P; self.val = {}; self.plc = {}          # key -> set of value expressions / set of cell expressions
        self.magic = {}                                   # key -> set of cells
        self.fns = fns; self.why = {}
        for F in fns:
            ms = {m for m in (magiccmp(F, i) for i in F.ins()) if m is not None}
            if ms & cellsread(P, F): self.magic[F.key()] = ms & cellsread(P, F)
        for F in fns:
            if F.key() in self.magic: self.origin(F)
        ch = True
        while ch:
            ch = False
            for F in fns:
                for i in F.ins():
                    if i.op != 'call': continue
                    for t in P.targets(F, i):
                        if t.key() not in {f.key() for f in fns}: continue
                        for n, a in enumerate(i.a[1][:t.nargs]):
                            e = F.expr(a); ar = mk('arg', n)
                            if ar in self.plc.get(t.key(), ()) and e[0] in ('loc', 'arg', 'fld'): ch |= self.add(self.plc, F, e, i)
                            if e in self.plc.get(F.key(), ()): ch |= self.add(self.plc, t, ar, i)
                            if self.isval(F, e): ch |= self.add(self.val, t, ar, i)
    def add(self, d, F, e, why):
        s = d.setdefault(F.key(), set())
        if e in s: return False
        s.add(e); self.why.setdefault((F.key(), e), why); return True
    def isval(self, F, e):
        k = F.key()
        if e in self.val.get(k, ()) : return True
        if e[0] == 'ld' and e[1] in self.plc.get(k, ()): return True
        if k in self.magic and e[0] == 'cmp':
            v = self.cmpm(F, e, True)
            return v is True
        return False
    def cmpm(self, F, e, foreign):
        """truth of a comparison of the first number"""
        a, b = e[2], e[3]
        if a[0] == 'c': a, b = b, a
        if e[1] in ('eq', 'ne') and a[0] == 'ld' and a[1] in self.magic.get(F.key(), ()) and b in (('c', 1), ('c', MAGIC)):
            eq = (b[1] == MAGIC) == foreign
            return eq if e[1] == 'eq' else not eq
        return None
    def decide(self, F, e, foreign):
        """truth of a condition for the given order, None if it does not depend on it"""
        if e[0] == 'cmp':
            v = self.cmpm(F, e, foreign)
            if v is not None: return v
            a, b = e[2], e[3]
            if a[0] == 'c': a, b = b, a
            if b[0] == 'c' and e[1] in ('eq', 'ne') and self.isval(F, a):
                if b[1] == 0: return foreign == (e[1] == 'ne')
                if b[1] == 1: return foreign == (e[1] == 'eq')
        if e[0] == 'xor' and ('c', 1) in e[1:] or e[0] == 'xor' and ('c', -1) in e[1:]:
            x = [y for y in e[1:] if y[0] != 'c']
            if len(x) == 1:
                v = self.decide(F, x[0], foreign)
                return None if v is None else not v
        return None
    def side(self, F):
        """blocks only reachable in a file of foreign order"""
        r = {}
        for fo in (True, False):
            seen = {0}; st = [0]
            while st:
                b = st.pop()
                t = F.blocks[b][-1]; ss = F.succs[b]
                if t.op == 'br' and t.a[0] is not None:
                    v = self.decide(F, F.expr(t.a[0]), fo)
                    if v is not None: ss = [t.a[1] if v else t.a[2]]
                for s in ss:
                    if s not in seen: seen.add(s); st.append(s)
            r[fo] = seen
        return r[True] - r[False], r[False] - r[True]
    def origin(self, F):
        only, never = self.side(F)
        F_ = F
        for i in F.ins():
            if i.op == 'store' and i.bb in only and F.expr(i.a[0][0]) == ('c', 1): 
                p = F.expr(i.a[0][1])
                if p[0] in ('loc', 'arg', 'fld'): self.add(self.plc, F, p, i)
            if i.op == 'phi':
                one = [p for v, p in i.a[0] if isinstance(v, dict) and v.get('i') == 1 and p in only]
                if one: self.add(self.val, F, mk('phi', i.id), i)
            if i.op == 'store' and F.expr(i.a[0][0])[0] == 'cmp' and self.cmpm(F, F.expr(i.a[0][0]), True) is True: self.add(self.plc, F, F.expr(i.a[0][1]), i)
        ch = True
        while ch:
            ch = False
            for i in F.ins():
                if i.op == 'phi' and mk('phi', i.id) not in self.val.get(F.key(), ()):
                    es = [F.expr(v) for v, p in i.a[0]]
                    if any(e in self.val.get(F.key(), ()) or e[0] == 'cmp' and self.cmpm(F, e, True) for e in es) and all(e[0] in ('c', 'phi', 'cmp', 'k', '?') for e in es): ch |= self.add(self.val, F, mk('phi', i.id), i)

# ------------------------------------------------------------------ raw numbers
def contains(e, x):
    st = [e]
    while st:
        y = st.pop()
        if y == x: return True
        if isinstance(y, tuple) or hasattr(y, 'k'): st += [z for z in y[1:] if not isinstance(z, (int, str, float))]
    return False

def substargs(e, args):
    if e[0] == 'arg': return args[e[1]] if e[1] < len(args) else None
    if e[0] in ('loc', 'phi', 'call', 'lv', '?', 'cyc'): return None
    out = []
    for z in e[1:]:
        if isinstance(z, (int, str, float)): out.append(z)
        else:
            y = substargs(z, args)
            if y is None: return None
            out.append(y)
    return mk(e[0], *out)

def entity0(e):
    """a field of entity 0, which does not exist: the routines use its memory to read past an entity"""
    if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2] == 'struct.MMG5_Mesh': return True
    while e[0] == 'idx' and e[1][0] == 'fld': e = e[1]
    if e[0] != 'fld' or e[2] == 'struct.MMG5_Mesh' or e[2] == 'struct.MMG5_Sol': return False
    b = e[1]
    return b[0] == 'ld' and b[1][0] == 'fld' and b[1][2] == 'struct.MMG5_Mesh' or b[0] == 'idx' and b[2] == ('c', 0) and b[1][0] == 'ld' and b[1][1][0] == 'fld' and b[1][1][2] == 'struct.MMG5_Mesh'

def show(e):
    if e[0] == 'fld': return '%s' % e[3]
    if e[0] == 'idx': return show(e[1]) + '[]'
    if e[0] == 'ld': return show(e[1])
    return {'loc': 'a local variable', 'arg': 'what the argument points to'}.get(e[0], 'a number')

def nothing_read(F, e, t):
    """(successor, cell) if the branch tests whether a read gave anything"""
    if e[0] != 'cmp' or e[1] not in ('eq', 'ne'): return None
    a, b = e[2], e[3]
    if a[0] == 'c': a, b = b, a
    if b[0] != 'c' or a[0] != 'call' or a[1] != 'fread': return None
    cell = F.expr(F.by_id[a[2]].a[1][0])
    ok = (e[1] == 'eq') == (b[1] > 0)            # the true side read something
    return (t.a[2] if ok else t.a[1], cell)

AUX = ('weak', 'ext')
def tripcount(F, ix):
    """the number of values a loop counter from 0 in steps of 1 takes, None if it is not one"""
    if ix[0] == 'c': return None
    if ix[0] != 'phi': return None
    i = F.by_id[ix[1]]; es = [F.expr(v) for v, p in i.a[0]]
    if len(es) != 2 or mk('c', 0) not in es or binop('add', [ix, mk('c', 1)]) not in es: return None
    t = F.blocks[i.bb][-1]
    e = F.expr(t.a[0]) if t.op == 'br' and t.a[0] is not None else ('?',)
    if e[0] == 'cmp' and e[1] in ('slt', 'ult', 'ne') and e[2] == ix: return e[3]
    if e[0] == 'cmp' and e[1] == 'sle' and e[2] == ix and e[3][0] == 'c': return mk('c', e[3][1] + 1)
    return None

def inside(F, s, h, target):
    st = [s]; seen = {s}
    while st:
        x = st.pop()
        if x == target: return True
        for y in F.succs[x]:
            if y not in seen and y != h: seen.add(y); st.append(y)
    return False

def every(F, h, sb, edges):
    """every turn of the loop at h passes block sb"""
    st = [y for x, y in edges if x == h]; seen = set(st)
    while st:
        x = st.pop()
        if x == sb: continue
        for p, y in edges:
            if p == x:
                if y == h: return False
                if y not in seen: seen.add(y); st.append(y)
    return True

class Raw:
    def __init__(self, c, P, flags, swaps, fns):
        self.c = c; self.P = P; self.fl = flags; self.swaps = swaps; self.keys = {f.key() for f in fns}; self.memo = {}; self.bad = {}; self.seen_swaps = {}; self.ev = {}
    def converted(self, F):
        """(block, local array, counter) of the element-wise conversions of local arrays"""
        out = set()
        for i in F.ins():
            if i.op != 'store': continue
            p = F.expr(i.a[0][1]); v = F.expr(i.a[0][0])
            if p[0] == 'idx' and p[1][0] == 'loc' and p[2][0] == 'phi' and v[0] == 'call' and v[1] in self.swaps and F.expr(F.by_id[v[2]].a[1][0]) == mk('ld', p): out.add((i.bb, p[1], p[2]))
        return out
    def report(self, F, i, kind, what, text):
        self.bad.setdefault((F.name, kind, what), (i.loc(), text))
    def run(self, F, foreign, cells=frozenset(), args=frozenset()):
        """analyse F with raw incoming cells and raw arguments; gives (raw cells at the returns, returned value raw)"""
        k = (F.key(), foreign, cells, args)
        if k in self.memo: return self.memo[k]
        self.memo[k] = (frozenset(), False)
        fl = self.fl
        rawv = {n: 0 for n in args}; state = {0: dict.fromkeys(cells, 0)}; work = [0]
        arrays = self.converted(F); rawcmp = {}; cleancmp = set(); out = {}; retraw = False
        visits = {}; edges = set()
        final = {}
        def israw(v): return not isinstance(v, dict) and v in rawv
        def rawcell(st, p):
            if p in st: return st[p]
            r, cr = root(p)
            if not cr and r[0] == 'loc' and ('weak', r) in st: return st[('weak', r)]
            return None
        def leave(st, cell, i, why):
            r, cr = root(cell)
            if entity0(cell): st.pop(cell); return
            if r[0] == 'loc' and not cr:
                sz = st.pop(cell)
                st[('weak', r)] = sz
                st[('ext', r)] = tripcount(F, cell[2]) if cell[0] == 'idx' else None
                return
            st.pop(cell)
            self.report(F, i, 'left', show(cell), '%s: %s is read from a file of foreign byte order and left unconverted when %s' % (F.name, show(cell), why))
        while work:
            b = min(work); work.remove(b); visits[b] = visits.get(b, 0) + 1
            if visits[b] > 200: raise Broken('%s: no fixpoint' % F.name)
            st = dict(state[b])
            for i in F.blocks[b]:
                a = i.a
                if i.op == 'phi':
                    for cell in [x for x in st if x[0] not in AUX and contains(x, mk('phi', i.id))]: leave(st, cell, i, 'the loop proceeds to the next one')
                    if any(israw(v) and (p, b) in edges for v, p in a[0]): rawv.setdefault(i.id, 0)
                elif i.op == 'load':
                    p = F.expr(a[0][0])
                    s = rawcell(st, p)
                    if s is not None: rawv.setdefault(i.id, s)
                elif i.op == 'store':
                    p = F.expr(a[0][1])
                    for cell in [x for x in st if x[0] not in AUX and x != p and contains(x, mk('ld', p))]: leave(st, cell, i, 'its address changes')
                    if israw(a[0][0]): st[p] = rawv[a[0][0]]
                    else: st.pop(p, None)
                elif i.op in CASTS or i.op in ('select', 'freeze'):
                    xs = a[0][1:] if i.op == 'select' else a[0][:1]
                    if any(israw(x) for x in xs): rawv.setdefault(i.id, 0)
                elif i.op in ('call', 'invoke'):
                    n = F.callee(i) or '*'
                    if n == 'fread' and foreign:
                        p = F.expr(a[1][0]); cnt = F.expr(a[1][2]); sz = F.expr(a[1][1])
                        for cell in [x for x in st if x[0] not in AUX and x != p and contains(x, mk('ld', p))]: leave(st, cell, i, 'its address changes')
                        if sz != ('c', 1):
                            st[p] = sz[1] if sz[0] == 'c' else 0
                            if cnt != ('c', 1): 
                                r, cr = root(p)
                                if not cr:
                                    st[('weak', r)] = st[p]; st[('ext', r)] = cnt
                                    if r[0] == 'loc': st.pop(p)
                        self.ev[(F.key(), i.id)] = 1
                    elif n in self.swaps:
                        w = self.swaps[n]
                        if not foreign: self.report(F, i, 'native', n, '%s: a number of a file in native byte order is converted' % F.name)
                        else:
                            v = a[1][0]
                            final[i.id] = (i, israw(v), rawv.get(v, 0) if israw(v) else 0, w)
                    else:
                        ts = [t for t in self.P.targets(F, i)]
                        if not ts:
                            if any(israw(x) for x in a[1]) and n not in PRINT and not n.startswith('llvm.'):
                                self.report(F, i, 'use', n, '%s: a number of a file of foreign byte order is used by %s before it is converted' % (F.name, n))
                        for t in ts:
                            ea = [F.expr(x) for x in a[1]]
                            ra = frozenset(m for m, x in enumerate(a[1][:t.nargs]) if israw(x))
                            inn = set()
                            for cell in st:
                                if cell[0] in AUX: continue
                                for m, e in enumerate(ea[:t.nargs]):
                                    if cell == e: inn.add(mk('arg', m))
                            if not ra and not inn and t.key() not in self.keys: continue
                            oc, rr = self.run(t, foreign, frozenset(inn), ra)
                            back = {substargs(x, ea) for x in oc}
                            for m in inn:
                                if m not in oc: st.pop(ea[m[1]], None)
                            for x in back:
                                if x is not None: st[x] = 0
                            if rr: rawv.setdefault(i.id, 0)
                elif i.op == 'icmp':
                    x, y = a[1], a[2]
                    if israw(x) or israw(y):
                        e, f = F.expr(x), F.expr(y)
                        if e[0] == 'c': e, f = f, e
                        if fl.cmpm(F, mk('cmp', i.a[0], F.expr(x), F.expr(y)), True) is None:
                            rawcmp[i.id] = (i, e, f, a[0])
                    else:
                        e, f = F.expr(x), F.expr(y)
                        if e[0] == 'c': e, f = f, e
                        if f[0] == 'c': cleancmp.add((e, f))
                elif i.op == 'ret':
                    if a and isinstance(a[0], list) and a[0] and israw(a[0][0]): retraw = True
                    for cell in st:
                        if cell[0] in AUX: continue
                        r, cr = root(cell)
                        if r[0] == 'loc' and not cr or entity0(cell): continue
                        out.setdefault(cell, i)
                elif i.op == 'br' or i.op == 'switch':
                    if a[0] is not None and israw(a[0]): self.report(F, i, 'use', 'test', '%s: a number of a file of foreign byte order is tested before it is converted' % F.name)
                else:
                    for x in operands(i):
                        if israw(x) and i.op != 'alloca': self.report(F, i, 'use', i.op, '%s: a number of a file of foreign byte order is used (%s) before it is converted' % (F.name, NAMES.get(i.op, i.op)))
            t = F.blocks[b][-1]; ss = F.succs[b]; none = None
            if t.op == 'br' and t.a[0] is not None:
                e = F.expr(t.a[0])
                v = fl.decide(F, e, foreign)
                if v is not None: ss = [t.a[1] if v else t.a[2]]
                none = nothing_read(F, e, t)
            st0 = st
            for s in set(ss):
                st = dict(st0)
                if none and none[0] == s: st.pop(none[1], None)
                # a loop that converts a whole local array ends
                for sb, arr, ix in arrays:
                    h = F.by_id[ix[1]].bb
                    if b == h and ('weak', arr) in st and not inside(F, s, h, sb) and st.get(('ext', arr)) is not None and tripcount(F, ix) == st[('ext', arr)] and every(F, h, sb, edges):
                        st.pop(('weak', arr)); st.pop(('ext', arr))
                new = (b, s) not in edges; edges.add((b, s))
                if s not in state: state[s] = dict(st); work.append(s)
                else:
                    d = state[s]; n0 = len(d)
                    for x, v in st.items(): d.setdefault(x, v)
                    if (new or len(d) > n0) and s not in work: work.append(s)
                    elif self.grown(k, rawv) and s not in work: work.append(s)
        for i, raw, sz, w in final.values():
            self.seen_swaps[(F.key(), i.id)] = (F, i, self.seen_swaps.get((F.key(), i.id), (0, 0, False))[2] or raw)
            if raw and sz and sz != w: self.report(F, i, 'size', str(sz), '%s: a number of %d bytes is converted as one of %d' % (F.name, sz, w))
        for i, e, f, op in rawcmp.values():
            if op in ('eq', 'ne') and f[0] == 'c' and (e, f) in cleancmp: continue
            self.report(F, i, 'use', 'comparison', '%s: a number of a file of foreign byte order is compared before it is converted' % F.name)
        res = (frozenset(out), retraw)
        self.memo[k] = res
        self.outs = getattr(self, 'outs', {}); self.outs.setdefault(k, out)
        return res
    def grown(self, k, rawv):
        n = self.__dict__.setdefault('_g', {}); o = n.get(k, 0); n[k] = len(rawv); return len(rawv) > o

NAMES = {'sitofp': 'conversion to floating point', 'fpext': 'widened', 'fptrunc': 'narrowed', 'getelementptr': 'as an index'}

def run(c):
    P = c.prog('dbg')
    swaps = {}
    for F in P.fns.values():
        m = bytemap(F)
        if m is None: continue
        n = SCALAR[F.ret]
        if m[0] == 'outside':
            c.violation('%s/outside' % F.name, m[1].loc(), '%s: byte conversion reaches outside the number' % F.name); continue
        if m == tuple(('in', n - 1 - k) for k in range(n)): swaps[F.name] = n; c.ob('byte reversals', '%s reverses %d bytes' % (F.name, n))
        elif F.name.startswith('MMG5_swap') or sorted(m) == sorted(('in', k) for k in range(n)) and m != tuple(('in', k) for k in range(n)):
            c.violation('%s/bytes' % F.name, F.loc(), '%s does not reverse the bytes of a number: byte order %s' % (F.name, [x[1] if len(x) > 1 else '?' for x in m]))
    rd = P.reach_back(['fread']) if hasattr(P, 'reach_back') else None
    readers = {F.key() for F in P.fns.values() if any(True for _ in F.calls('fread'))}
    while True:
        more = {F.key() for F in P.fns.values() if F.key() not in readers and any(t.key() in readers for i in F.ins() if i.op == 'call' for t in P.targets(F, i))}
        if not more: break
        readers |= more
    fns = [P.fns[k] for k in sorted(readers) if k in P.fns] or [F for F in P.fns.values() if F.key() in readers]
    fl = Flags(P, fns)
    c.floor('routines that detect the byte order', 5); c.floor('numbers read', 180); c.floor('conversions', 150); c.floor('routines that are handed the byte order', 5)
    for k in sorted(fl.magic): c.ob('routines that detect the byte order', k)
    for k in sorted(set(fl.val) | set(fl.plc)):
        if any(e[0] == 'arg' for e in fl.val.get(k, set()) | fl.plc.get(k, set())): c.ob('routines that are handed the byte order', k)
    # every caller hands on the flag it was given
    for F in fns:
        for i in F.ins():
            if i.op != 'call': continue
            for t in P.targets(F, i):
                for e in fl.val.get(t.key(), ()):
                    if e[0] == 'arg' and e[1] < len(i.a[1]) and not fl.isval(F, F.expr(i.a[1][e[1]])):
                        if F.name == 'main' or not (set(fl.val.get(F.key(), ())) | set(fl.plc.get(F.key(), ())) ) and not fl.magic.get(F.key()):
                            if F.key() not in fl.magic and F.nargs == 0: continue
                        c.violation('%s/flag/%s' % (F.name, t.name), i.loc(), '%s: the byte order handed to %s is not the one found in the file' % (F.name, t.name))
        # the flag is not cleared once a foreign file was recognised
        if F.key() in fl.magic:
            only, never = fl.side(F)
            st = list(only); seen = set(only)
            while st:
                for s in F.succs[st.pop()]:
                    if s not in seen: seen.add(s); st.append(s)
            for i in F.ins():
                if i.op == 'store' and F.expr(i.a[0][1]) in fl.plc.get(F.key(), ()) and i.bb in seen and F.expr(i.a[0][0]) != ('c', 1):
                    c.violation('%s/cleared' % F.name, i.loc(), '%s: the byte order found in the file is overwritten' % F.name)
                if i.op == 'phi' and mk('phi', i.id) in fl.val.get(F.key(), ()):
                    for v, p in i.a[0]:
                        if isinstance(v, dict) and v.get('i') == 0 and p in only: c.violation('%s/cleared' % F.name, i.loc(), '%s: the byte order found in the file is overwritten' % F.name)
            if not fl.val.get(F.key()) and not fl.plc.get(F.key()):
                c.violation('%s/kept' % F.name, F.loc(), '%s recognises a file of foreign byte order but does not remember it' % F.name)
    R = Raw(c, P, fl, swaps, fns)
    for fo in (False, True):
        for F in fns:
            if fo or True: R.run(F, fo)
    for F in fns:
        if F.name == 'main' or a05.is_fortran_unit(F.unit): continue
        for k, out in getattr(R, 'outs', {}).items():
            if k[0] != F.key() or not k[1] or k[2] or k[3]: continue
            called = any(G.name != 'main' and not a05.is_fortran_unit(G.unit) and F.key() in {t.key() for i in G.ins() if i.op == 'call' for t in P.targets(G, i)} for G in fns)
            for cell, i in out.items():
                if called and root(cell)[0][0] == 'arg' : 
                    r = cell
                    if substargs(cell, [mk('arg', n) for n in range(F.nargs)]) is not None: continue
                R.report(F, i, 'left', show(cell), '%s: %s is read from a file of foreign byte order and left unconverted' % (F.name, show(cell)))
    for (k, n), (F, i, raw) in sorted(R.seen_swaps.items()):
        c.ob('conversions', '%s in %s' % (i.loc(), F.name))
        if not raw: R.report(F, i, 'twice', i.loc().split(':')[0], '%s: a number that is not raw is converted' % F.name)
    for k in R.ev: c.count('numbers read')
    for (f, kind, what), (loc, text) in sorted(R.bad.items()): c.violation('%s/%s/%s' % (f, kind, what), loc, text)
    c.rule('foreign-order numbers are converted exactly once before use; native ones never')
