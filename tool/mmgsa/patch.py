"""Value-flow through operations on a small patch of triangles: element numbers are fixed but arbitrary, vertices, tags and
references are opaque labels, the neighbour table of the patch is given; the patch that results is read back."""
from .splitsim import *

def lab1(e): return e[0] if isinstance(e, tuple) else e

class Patch:
    def __init__(self):
        self.t = {}; self.outer = set()
    def add(self, k, v, outer=False):
        self.t[k] = list(v)
        if outer: self.outer.add(k)
    def sides(self, inner=True):
        for k, v in self.t.items():
            if inner and k in self.outer: continue
            for i in range(3): yield k, i, (v[(i + 1) % 3], v[(i + 2) % 3])
    def adj(self):
        m = {}
        for k, i, (a, b) in self.sides(False):
            if (a, b) in m: return None
            m[(a, b)] = (k, i)
        return {(k, i): m.get((b, a)) for (a, b), (k, i) in m.items()}
    def chain(self):
        s = [ab for k, i, ab in self.sides()]
        return sorted(x for x in s if (x[1], x[0]) not in s)
    def close(self, present, base=20):
        """outer neighbours on the boundary sides selected by present (bit mask)"""
        n = 0
        for a, b in self.chain():
            if present >> n & 1:
                v = [None] * 3; r = n % 3
                v[r] = 'o%d' % n; v[(r + 1) % 3] = b; v[(r + 2) % 3] = a
                self.add(base + n, v, True)
            n += 1
        return n

class Patcher:
    def __init__(self, P, width=4): self.P = P; self.width = width
    def run(self, fn, patch, args, arrays=None, inline=()):
        """args: argument number -> constant; arrays: argument number -> list of constants (int list)"""
        P = self.P; F = P.need(fn)
        A = [mk('arg', n) for n in range(F.nargs)]
        for n, v in args.items(): A[n] = v if isinstance(v, tuple) else mk('c', v)
        mesh = A[0]; fld = lambda o, s, f: mk('fld', o, s, f)
        tria = mk('ld', fld(mesh, MESH, 'tria')); adja = mk('ld', fld(mesh, MESH, 'adja')); ptp = mk('ld', fld(mesh, MESH, 'point'))
        st = State()
        adj = patch.adj(); self.tagof = {}
        for k, v in patch.t.items():
            e = mk('idx', tria, mk('c', k))
            for i in range(3):
                st.mem[mk('idx', fld(e, TRI, 'v'), mk('c', i))] = mk('V', v[i])
                x = adj[(k, i)]
                st.mem[mk('idx', adja, mk('c', 3 * (k - 1) + 1 + i))] = mk('c', 3 * x[0] + x[1] if x else 0)
                n = ''.join(sorted((v[(i + 1) % 3], v[(i + 2) % 3])))
                st.mem[mk('idx', fld(e, TRI, 'tag'), mk('c', i))] = mk('TG', n)
                st.mem[mk('idx', fld(e, TRI, 'edg'), mk('c', i))] = mk('ED', n)
            st.mem[fld(e, TRI, 'ref')] = mk('REF', k)
        for n, l in (arrays or {}).items():
            for k, v in enumerate(l): st.mem[mk('idx', A[n], mk('c', k))] = mk('c', v)
            st.mem[A[n]] = mk('c', l[0])
        NEW = mk('NEW')
        st.mem[NEW] = mk('c', 0)
        def track(p):
            fs = list(parents(p))
            if fs[-1][0] == 'loc': return True
            for q in fs:
                if q[0] == 'fld' and q[2] in KEEP: return q[3] in KEEP[q[2]]
            return p[0] == 'idx' and p[1] in (tria, adja) or fs[-1] is adja
        def decide(F, c, st):
            if c[0] != 'cmp': return None
            a, b = c[2], c[3]
            if c[1] in ('eq', 'ne') and a[0] in ('V',) and b[0] == 'V': return (a is b) == (c[1] == 'eq')
            if a is b and c[1] in ('sgt', 'slt'): return False
            if a is b and c[1] in ('sge', 'sle'): return True
            if a[0] == 'ED' and b[0] == 'ED': return 'rec'
            if a[0] == 'V' and b == ('c', 0): return c[1] in ('ne', 'sgt', 'sge')
            return None
        def call(F, i, n, args, st):
            if n in ('MMGS_newElt', 'MMG2D_newElt'):
                k = st.mem[NEW][1]; st.mem[NEW] = mk('c', k + 1)
                return mk('c', 101 + k)
            if n in ('MMGS_delElt', 'MMG2D_delElt'):
                if args[1][0] != 'c': raise Broken('%s deletes an unknown element' % F.name)
                st.mem[mk('DEL', args[1][1])] = mk('c', 1)
                return mk('c', 1)
            if n in ('MMGS_delPt', 'MMG2D_delPt'):
                st.mem[mk('DELP', args[1][1] if args[1][0] == 'V' else '?')] = mk('c', 1)
                return mk('c', 1)
            if n in inline: return 'inline'
            return TOP
        I = Interp(P, track, decide, call)
        I.arrays = {tria: TRI, ptp: 'struct.MMG5_Point'}; I.cells = {adja: self.width}
        self.tria, self.adja = tria, adja
        return F, I.run(F, A, st)
    def result(self, s, patch):
        """-> (Patch, neighbour table, side data) of the state, or a description of what is wrong"""
        tria, adja = self.tria, self.adja
        dead = {q[1] for q in s.mem if q[0] == 'DEL'}
        new = s.mem[mk('NEW')][1]
        keys = [k for k in list(patch.t) + [101 + i for i in range(new)] if k not in dead]
        R = Patch(); R.outer = set(patch.outer); tab = {}; data = {}
        for q in s.mem:
            if q[0] == 'idx' and q[1] is adja and q[2][0] != 'c': return 'writes the neighbour table at an unknown position'
            if q[0] == 'idx' and q[1] is adja and (q[2][1] - 1) // 3 + 1 not in keys and (q[2][1] - 1) // 3 + 1 not in dead: return 'writes the neighbours of element %d, which is not in the patch' % ((q[2][1] - 1) // 3 + 1)
        for k in keys:
            e = mk('idx', tria, mk('c', k)); v = []
            for i in range(3):
                x = s.load(mk('idx', mk('fld', e, TRI, 'v'), mk('c', i)))
                if x[0] != 'V': return 'vertex %d of element %d is unknown (%r)' % (i, k, x)
                v.append(x[1])
                a = s.load(mk('idx', adja, mk('c', 3 * (k - 1) + 1 + i)))
                if a[0] != 'c': return 'neighbour %d of element %d is unknown' % (i, k)
                tab[(k, i)] = (a[1] // 3, a[1] % 3) if a[1] else None
                data[(k, i)] = (s.load(mk('idx', mk('fld', e, TRI, 'tag'), mk('c', i))), s.load(mk('idx', mk('fld', e, TRI, 'edg'), mk('c', i))))
            R.add(k, v, k in patch.outer)
        self.gone = {q[1] for q in s.mem if q[0] == 'DELP'}; self.order = [(e[1], e[2][1], e[3][1], v) for e, v in s.facts if e[0] == 'cmp' and e[2][0] == 'ED' and e[3][0] == 'ED']
        return R, tab, data

def smaller(order):
    """pairs (a, b) with a < b according to the comparisons made"""
    for op, a, b, v in order:
        if op in ('sgt', 'sge') and v or op in ('slt', 'sle') and not v: yield b, a
        elif op in ('sgt', 'sge', 'slt', 'sle'): yield a, b

def labels(x):
    if x[0] == 'or': return labels(x[1]) | labels(x[2])
    if x == ('c', 0): return frozenset()
    if x[0] in ('TG', 'ED'): return frozenset((x[1],))
    return None

def unchanged(res, patch, adj):
    if isinstance(res, str): return False
    R, tab, data = res
    return R.t == patch.t and tab == adj and all(d == (mk('TG', n), mk('ED', n)) for (k, i), d in data.items() for n in [''.join(sorted((patch.t[k][(i + 1) % 3], patch.t[k][(i + 2) % 3])))])

def judge(res, patch, chain, verts, newv=None, collapse=None, into=None, order=()):
    if isinstance(res, str): return res
    R, tab, data = res
    for k, v in R.t.items():
        if len(set(v)) < 3: return 'element %d is degenerate (%s)' % (k, '-'.join(v))
    if {x for k, v in R.t.items() if k not in R.outer for x in v} != verts: return 'the vertices of the result are %s instead of %s' % (sorted({x for k, v in R.t.items() if k not in R.outer for x in v}), sorted(verts))
    adj = R.adj()
    if adj is None: return 'two elements run along one edge in the same direction'
    if R.chain() != chain: return 'the outline of the patch becomes %s instead of %s' % (R.chain(), chain)
    for x in sorted(tab):
        if tab[x] != adj[x]:
            return 'neighbour %d of element %d is %s, the vertices say %s' % (x[1], x[0], 'element %d side %d' % tab[x] if tab[x] else 'none', 'element %d side %d' % adj[x] if adj[x] else 'none')
    old = {''.join(sorted(ab)) for k, i, ab in patch.sides(False)}
    for k, i, (a, b) in R.sides(False):
        tg, ed = labels(data[(k, i)][0]), labels(data[(k, i)][1]); n = ''.join(sorted((a, b)))
        if tg is None or ed is None: return 'side %d of element %d has unknown tags' % (i, k)
        if n in old:
            if n not in tg: return 'side %d of element %d (%s-%s) loses its tags' % (i, k, a, b)
            if into in (a, b) and (x := ''.join(sorted((set((a, b)) - {into}) | {collapse}))) in old:
                if tg != {n, x}: return 'side %d of element %d (%s-%s) does not carry the tags of both merged edges' % (i, k, a, b)
                w = {hi for lo, hi in smaller(order) if {lo, hi} == {n, x}}
                if not ed <= {n, x} or len(w) == 1 and ed != w: return 'side %d of element %d (%s-%s) does not carry the larger reference of the merged edges' % (i, k, a, b)
                if len(w) < 2 and tab[(k, i)] and data[tab[(k, i)]][1] is not data[(k, i)][1]: return 'the two sides of edge %s-%s carry different references' % (a, b)
            elif collapse is not None and ed != {n}: return 'side %d of element %d (%s-%s) does not keep its reference' % (i, k, a, b)
            if not tg <= {n} and collapse is None: return 'side %d of element %d (%s-%s) gets tags of another edge' % (i, k, a, b)
            if collapse is None and ed != {n} : return 'side %d of element %d (%s-%s) does not keep its reference' % (i, k, a, b)
        elif newv and newv[0] in (a, b) and set((a, b)) - {newv[0]} <= set(newv[1]):
            w = ''.join(sorted(newv[1]))
            if tg != {w} or ed != {w}: return 'side %d of element %d (%s-%s), half of edge %s, does not carry its data' % (i, k, a, b, w)
        elif collapse is not None:
            w = {''.join(sorted((x, collapse))) for x in ((set((a, b)) - {into}) if into else (a, b))}
            if not ed <= w or not ed or not tg <= w or not tg: return 'side %d of element %d (%s-%s) does not carry the data of the side it comes from' % (i, k, a, b)
        elif collapse is None and (tg or ed): return 'side %d of element %d (%s-%s) is new but carries data of edge %s' % (i, k, a, b, ' '.join(sorted(tg | ed)))
    return None
