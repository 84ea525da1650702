"""Value-flow through operations on a small patch of tetrahedra; see patch.py."""
from .splitsim import *
from .patch import labels, smaller

FACES = [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)]      # outward orientation of a positive tetrahedron

def even(p):
    s = 0; p = list(p)
    for i in range(len(p)):
        for j in range(i): s ^= p[j] > p[i]
    return not s
ROT12 = [p for p in itertools.permutations(range(4)) if even(p)]
def name(*v): return ''.join(sorted(v))

class Patch3:
    def __init__(self): self.t = {}; self.outer = set(); self.bdy = {}; self.xt = {}; self.ref = {}
    def add(self, k, v, rot=0, outer=False, ref=3):
        p = ROT12[rot % 12]
        self.t[k] = [v[p[i]] for i in range(4)]; self.ref[k] = ref
        if outer: self.outer.add(k)
    def faces(self, inner=True):
        for k, v in self.t.items():
            if inner and k in self.outer: continue
            for i in range(4): yield k, i, tuple(v[x] for x in FACES[i])
    def key(self, f):
        """face with its orientation: rotated to start with the smallest vertex"""
        i = f.index(min(f)); return f[i:] + f[:i]
    def adj(self):
        m = {}
        for k, i, f in self.faces(False):
            if self.key(f) in m: return None
            m[self.key(f)] = (k, i)
        return {x: m.get(self.key(f[::-1])) for f, x in m.items()}
    def hull(self):
        s = {self.key(f) for k, i, f in self.faces()}
        return sorted(f for f in s if self.key(f[::-1]) not in s)
    def close(self, kinds, base=60):
        """kinds: per hull face 'n' (inside neighbour), 'b' (boundary, none), 'i' (boundary between materials, neighbour)"""
        for n, f in enumerate(self.hull()):
            k = kinds[n]
            if k != 'b': self.add(base + n, ['o%d' % n, *f[::-1]][0:2] + list(f[::-1])[1:] if False else ['o%d' % n] + list(f[::-1]), n * 5, True, 4 if k == 'i' else 3)
            if k != 'n': self.bdy[name(*f)] = 1 if k == 'b' else 0
    def records(self, force=()):
        """boundary records for the elements with boundary faces"""
        for k, v in self.t.items():
            if k in self.outer: continue
            if k in force or any(name(*(v[x] for x in FACES[i])) in self.bdy for i in range(4)): self.xt[k] = 200 + k

class Patcher3:
    def __init__(self, P, inline=()): self.P = P; self.inline = inline; self.bad = None
    def run(self, fn, patch, args, arrays=None):
        P = self.P; F = P.need(fn)
        A = [mk('arg', n) for n in range(F.nargs)]
        for n, v in args.items(): A[n] = v if isinstance(v, tuple) else mk('c', v)
        mesh = A[0]; fld = lambda o, s, f: mk('fld', o, s, f)
        tet = mk('ld', fld(mesh, MESH, 'tetra')); adja = mk('ld', fld(mesh, MESH, 'adja')); ptp = mk('ld', fld(mesh, MESH, 'point')); xtp = mk('ld', fld(mesh, MESH, 'xtetra'))
        self.tet, self.adja, self.xtp, self.mesh = tet, adja, xtp, mesh
        st = State(); adj = patch.adj()
        for k, v in patch.t.items():
            e = mk('idx', tet, mk('c', k))
            for i in range(4):
                st.mem[mk('idx', fld(e, TET, 'v'), mk('c', i))] = mk('V', v[i])
                x = adj[(k, i)]
                st.mem[mk('idx', adja, mk('c', 4 * (k - 1) + 1 + i))] = mk('c', 4 * x[0] + x[1] if x else 0)
            st.mem[fld(e, TET, 'ref')] = mk('c', patch.ref[k])
            st.mem[fld(e, TET, 'flag')] = mk('c', 0)
            st.mem[fld(e, TET, 'xt')] = mk('c', patch.xt.get(k, 0))
            if k in patch.xt:
                x = mk('idx', xtp, mk('c', patch.xt[k])); ori = 0
                for i in range(4):
                    f = name(*(v[y] for y in FACES[i])); b = f in patch.bdy
                    st.mem[mk('idx', fld(x, XT, 'ref'), mk('c', i))] = mk('R', f) if b else mk('c', 0)
                    st.mem[mk('idx', fld(x, XT, 'ftag'), mk('c', i))] = mk('FT', f) if b else mk('c', 0)
                    if patch.bdy.get(f, 1): ori |= 1 << i
                st.mem[fld(x, XT, 'ori')] = mk('c', ori)
                for n, (a, b) in enumerate(IARE):
                    st.mem[mk('idx', fld(x, XT, 'tag'), mk('c', n))] = mk('TG', name(v[a], v[b]))
                    st.mem[mk('idx', fld(x, XT, 'edg'), mk('c', n))] = mk('ED', name(v[a], v[b]))
        z = mk('idx', xtp, mk('c', 0))
        for f, n in (('ref', 4), ('ftag', 4), ('tag', 6), ('edg', 6)):
            for i in range(n): st.mem[mk('idx', fld(z, XT, f), mk('c', i))] = mk('c', 0)
        st.mem[fld(z, XT, 'ori')] = mk('c', 0)
        for n, l in (arrays or {}).items():
            for k, v in enumerate(l): st.mem[mk('idx', A[n], mk('c', k))] = mk('c', v)
            st.mem[A[n]] = mk('c', l[0])
        st.mem[fld(mesh, MESH, 'xt')] = mk('c', 300); st.mem[fld(mesh, MESH, 'xtmax')] = mk('c', 10000)
        NEW = mk('NEW'); st.mem[NEW] = mk('c', 0)
        def track(p):
            fs = list(parents(p))
            if fs[-1][0] == 'loc': return True
            for q in fs:
                if q[0] == 'fld' and q[2] in KEEP: return q[3] in KEEP[q[2]]
            return p[0] == 'idx' and p[1] in (tet, adja, xtp) or fs[-1] is adja or any(fs[-1] is A[n] for n in arrays or {})
        def decide(F, c, st):
            if c[0] != 'cmp': return None
            a, b = c[2], c[3]
            if b[0] in ('null', 'c') and a in (mk('ld', adja), adja): return c[1] == 'ne'
            if a is b: return {'eq': True, 'ne': False, 'sgt': False, 'slt': False, 'sge': True, 'sle': True}.get(c[1])
            if c[1] in ('eq', 'ne') and a[0] == 'V' and b[0] == 'V': return c[1] == 'ne'
            if c[1] in ('eq', 'ne') and a[0] in ('TG', 'ED', 'or') and b[0] in ('TG', 'ED', 'or'): return c[1] == 'ne'
            # references of different faces and edges: one order is as good as another
            if a[0] in ('ED', 'R') and b[0] == a[0]: return {'sgt': a[1] > b[1], 'sge': a[1] >= b[1], 'slt': a[1] < b[1], 'sle': a[1] <= b[1], 'eq': a is b, 'ne': a is not b}.get(c[1])
            if a[0] == 'and' and a[2][0] == 'c' and masked(a[1]) is not None and a[1][0] != 'FT' and b == ('c', 0): return c[1] == 'eq'
            if a[0] in ('ED', 'R') and b == ('c', 0): return c[1] in ('sgt', 'ne', 'sge')
            if b[0] in ('ED', 'R') and a == ('c', 0): return c[1] in ('slt', 'ne', 'sle')
            if a[0] in ('V', 'FT', 'TG', 'or') and b == ('c', 0): return c[1] in ('ne', 'sgt', 'sge')
            if a[0] == 'and' and a[1][0] == 'FT' and b == ('c', 0): return c[1] == 'ne'
            return None
        def elt(x):
            if x[0] != 'c': raise Broken('%s: unknown element %r' % (F.name, x))
            return x[1]
        def edge(st, k, e):
            return name(*(st.load(mk('idx', fld(mk('idx', tet, mk('c', k)), TET, 'v'), mk('c', x)))[1] for x in IARE[e]))
        def call(F, i, n, args, st):
            if n == 'MMG3D_newElt':
                k = st.mem[NEW][1]; st.mem[NEW] = mk('c', k + 1)
                return mk('c', 101 + k)
            if n == 'MMG3D_newPt': return mk('V', 'm')
            if n == 'MMG3D_delElt': st.mem[mk('DEL', elt(args[1]))] = mk('c', 1); return mk('c', 1)
            if n == 'MMG3D_get_shellEdgeTag':
                w = edge(st, elt(args[1]), elt(args[2]))
                st.store(args[3], mk('TG', w)); st.store(args[4], mk('ED', w))
                for p in args[3:5]:
                    if p[0] == 'idx' and p[2] == ('c', 0): st.store(p[1], st.mem[p])
                return mk('c', 1)
            if n == 'MMG3D_update_shellEdgeTag':
                w = edge(st, elt(args[1]), elt(args[2]))
                for k in patch.xt:
                    for e in range(6):
                        if edge(st, k, e) == w:
                            x = st.load(fld(mk('idx', tet, mk('c', k)), TET, 'xt'))
                            st.mem[mk('idx', fld(mk('idx', xtp, x), XT, 'tag'), mk('c', e))] = args[3]
                            st.mem[mk('idx', fld(mk('idx', xtp, x), XT, 'edg'), mk('c', e))] = args[4]
                return mk('c', 1)
            G = P.resolve(F, n)
            if G is not None and (n in self.inline or n.endswith(('_cfg', '_globNum', '_crea_newTetra'))): return 'inline'
            return TOP
        I = Interp(P, track, decide, call, budget=400000)
        I.arrays = {tet: TET, xtp: XT, ptp: 'struct.MMG5_Point'}; I.cells = {adja: 4}
        return F, I.run(F, A, st)
    def result(self, s, patch):
        tet, adja, xtp = self.tet, self.adja, self.xtp; fld = lambda o, st, f: mk('fld', o, st, f)
        dead = {q[1] for q in s.mem if q[0] == 'DEL'}
        keys = [k for k in list(patch.t) + [101 + i for i in range(s.mem[mk('NEW')][1])] if k not in dead]
        R = Patch3(); R.outer = set(patch.outer); tab = {}; data = {}; used = {}
        for q in s.mem:
            if q[0] == 'idx' and q[1] is adja:
                if q[2][0] != 'c': return 'writes the neighbour table at an unknown position'
                k = (q[2][1] - 1) // 4 + 1
                if k not in keys and k not in dead: return 'writes the neighbours of element %d, which is not in the patch' % k
        for k in keys:
            e = mk('idx', tet, mk('c', k)); v = []
            for i in range(4):
                x = s.load(mk('idx', fld(e, TET, 'v'), mk('c', i)))
                if x[0] != 'V': return 'vertex %d of element %d is unknown (%r)' % (i, k, x)
                v.append(x[1])
                a = s.load(mk('idx', adja, mk('c', 4 * (k - 1) + 1 + i)))
                if a[0] != 'c': return 'neighbour %d of element %d is unknown (%s)' % (i, k, a)
                tab[(k, i)] = (a[1] // 4, a[1] % 4) if a[1] else None
            r = s.load(fld(e, TET, 'ref'))
            x = s.load(fld(e, TET, 'xt'))
            if x[0] != 'c' or r[0] != 'c': return 'element %d has an unknown boundary record or material' % k
            R.t[k] = v; R.ref[k] = r[1]
            if k in patch.outer: continue
            if x[1]:
                if x[1] in used: return 'elements %d and %d share one boundary record' % (used[x[1]], k)
                used[x[1]] = k; o = mk('idx', xtp, x)
                ori = s.load(fld(o, XT, 'ori'))
                if ori[0] != 'c': return 'the orientations of element %d are unknown (%s)' % (k, ori[0])
                data[k] = dict(ref=[s.load(mk('idx', fld(o, XT, 'ref'), mk('c', i))) for i in range(4)], ftag=[s.load(mk('idx', fld(o, XT, 'ftag'), mk('c', i))) for i in range(4)],
                               tag=[s.load(mk('idx', fld(o, XT, 'tag'), mk('c', i))) for i in range(6)], edg=[s.load(mk('idx', fld(o, XT, 'edg'), mk('c', i))) for i in range(6)], ori=ori[1])
                R.xt[k] = x[1]
        self.order = [(e[1], e[2][1], e[3][1], v) for e, v in s.facts if e[0] == 'cmp' and e[2][0] == 'ED' and e[3][0] == 'ED']
        return R, tab, data

def masked(x):
    if x[0] == 'and' and x[2][0] == 'c': return masked(x[1])
    if x[0] == 'or':
        a, b = masked(x[1]), masked(x[2])
        return None if a is None or b is None else a | b
    return labels(x)

def judge3(res, patch, hull, verts, faces=False, edges=False, merged=None):
    if isinstance(res, str): return res
    R, tab, data = res
    for k, v in R.t.items():
        if len(set(v)) < 4: return 'element %d is degenerate (%s)' % (k, '-'.join(v))
    got = {x for k, v in R.t.items() if k not in R.outer for x in v}
    if got != verts: return 'the vertices of the result are %s instead of %s' % (sorted(got), sorted(verts))
    adj = R.adj()
    if adj is None: return 'two elements lie on the same side of a face'
    if R.hull() != hull: return 'the hull of the patch changes: %s instead of %s' % (sorted(set(R.hull()) - set(hull)), sorted(set(hull) - set(R.hull())))
    for x in sorted(tab):
        if tab[x] != adj[x]:
            return 'neighbour %d of element %d is %s, the vertices say %s' % (x[1], x[0], 'element %d face %d' % tab[x] if tab[x] else 'none', 'element %d face %d' % adj[x] if adj[x] else 'none')
    for k in R.t:
        if k not in R.outer and R.ref[k] != 3: return 'element %d gets another material' % k
    merged = merged or {}
    if faces:
        for k, i, f in R.faces():
            n = name(*f)
            if n in merged: n = merged[n]
            if n in patch.bdy:
                if k not in data: return 'element %d has boundary face %s but no boundary record' % (k, n)
                d = data[k]
                if d['ref'][i] != ('R', n) or d['ftag'][i] != ('FT', n): return 'face %d of element %d (%s) does not keep its reference and tags' % (i, k, n)
                if (d['ori'] >> i & 1) != patch.bdy[n]: return 'face %d of element %d (%s) does not keep its orientation' % (i, k, n)
            elif k in data:
                d = data[k]
                if d['ref'][i] != ('c', 0) or d['ftag'][i] != ('c', 0): return 'inner face %d of element %d (%s) carries boundary data' % (i, k, n)
                if not d['ori'] >> i & 1: return 'inner face %d of element %d (%s) is not marked as inside' % (i, k, n)
    if edges:
        old = {name(v[a], v[b]) for k, v in patch.t.items() if k not in patch.outer for a, b in IARE}
        for k, d in data.items():
            for e, (a, b) in enumerate(IARE):
                n = name(R.t[k][a], R.t[k][b]); tg, ed = (labels if edges != 'within' else masked)(d['tag'][e]), labels(d['edg'][e])
                w = {n} if n in old else set()
                if edges == 'within':
                    if not (tg is not None and ed is not None and tg <= w | {merged.get(n)} and ed <= w | {merged.get(n)}): return 'edge %d of element %d (%s) carries %s' % (e, k, n, sorted((tg or {'?'}) | (ed or {'?'})))
                    continue
                if tg != w or ed != w: return 'edge %d of element %d (%s) carries %s instead of %s' % (e, k, n, sorted((tg or {'?'}) | (ed or {'?'})), sorted(w) or 'nothing')
    return None
