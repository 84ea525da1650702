"""Value-flow model of the routines that subdivide one tetrahedron: vertices and boundary attributes of the parent are opaque
labels, the labels are propagated to the cells of the new elements for each edge-mark pattern and each vertex order the code
distinguishes."""
from .absint import *
from fractions import Fraction as Q
import itertools

IARE = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
TET = 'struct.MMG5_Tetra'; XT = 'struct.MMG5_xTetra'; MESH = 'struct.MMG5_Mesh'
KEEP = {TET: {'v', 'ref', 'xt', 'flag'}, XT: {'ref', 'edg', 'ftag', 'tag', 'ori'}, MESH: {'xt'}}

def order(facts):
    lt = {(e[2], e[3]) if v else (e[3], e[2]) for e, v in facts if e[2][0] == 'V' and e[3][0] == 'V'}
    ch = True
    while ch:
        n = {(a, d) for a, b in lt for c, d in lt if b is c} - lt
        ch = bool(n); lt |= n
    return lt

TRI = 'struct.MMG5_Tria'
KEEP[TRI] = {'v', 'ref', 'edg', 'tag', 'flag'}
KEEP['struct.MMG5_Point'] = {'ref'}
VOLUME = {'MMG5_orvol': 1, 'MMG2D_quickcal': 1, 'MMG5_nonUnitNorPts': 1}

class Model:
    """kind 3: tetrahedron, 2: triangle"""
    def __init__(self, P, kind=3, inline=(), new=('MMG3D_newElt', 'MMGS_newElt', 'MMG2D_newElt'), vorder=True):
        self.P = P; self.inline = inline; self.new = new; self.kind = kind
        self.S = TET if kind == 3 else TRI; self.arr = 'tetra' if kind == 3 else 'tria'
        self.nv = 4 if kind == 3 else 3; self.ne = 6 if kind == 3 else 3
    def run1b(self, fn, e, bdy):
        K, N = mk('c', 5), mk('c', 9)
        F = self.P.need(fn); A = [mk('arg', n) for n in range(F.nargs)]
        def pre(st, base):
            for n, v in ((3, 30 + e), (4, 9)):
                st.mem[mk('idx', A[n], mk('c', 0))] = mk('c', v); st.mem[A[n]] = mk('c', v)
            st.copyobj(mk('idx', base, N), mk('idx', base, K))
        return self.run(fn, 0, bdy, args={1: mk('M', e), 2: mk('c', 0), 5: mk('idx', mk('loc', 'caller', 0, 0), mk('c', 0))}, vxarg=None, elem=K, pre=pre)
    def run(self, fn, flag, bdy=None, args=None, karg=2, vxarg=3, extra=None, elem=None, pre=None):
        """bdy: None (no boundary record) or the set of parent faces that carry boundary data"""
        P = self.P; F = P.need(fn)
        A = [mk('arg', n) for n in range(F.nargs)]
        for n, v in (args or {}).items(): A[n] = v
        mesh = A[0]; S = self.S
        base = mk('ld', mk('fld', mesh, MESH, self.arr)); xtp = mk('ld', mk('fld', mesh, MESH, 'xtetra'))
        ptp = mk('ld', mk('fld', mesh, MESH, 'point'))
        self.base, self.xtp = base, xtp
        pt = mk('idx', base, elem or A[karg])
        st = State()
        def fld(o, s, f, i=None):
            p = mk('fld', o, s, f)
            return p if i is None else mk('idx', p, mk('c', i))
        for i in range(self.nv): st.mem[fld(pt, S, 'v', i)] = mk('V', i)
        st.mem[fld(pt, S, 'flag')] = mk('c', flag)
        st.mem[fld(pt, S, 'ref')] = mk('REF')
        if self.kind == 3:
            st.mem[fld(pt, S, 'xt')] = mk('X') if bdy is not None else mk('c', 0)
            if bdy is not None:
                x = mk('idx', xtp, mk('X'))
                for i in range(4):
                    st.mem[fld(x, XT, 'ref', i)] = mk('R', i) if i in bdy else mk('c', 0)
                    st.mem[fld(x, XT, 'ftag', i)] = mk('FT', i) if i in bdy else mk('c', 0)
                for e in range(6):
                    st.mem[fld(x, XT, 'edg', e)] = mk('ED', e); st.mem[fld(x, XT, 'tag', e)] = mk('TG', e)
                st.mem[fld(x, XT, 'ori')] = mk('ORI')
            st.mem[mk('fld', mesh, MESH, 'xt')] = mk('NXT')
        else:
            for e in range(3):
                st.mem[fld(pt, S, 'edg', e)] = mk('ED', e); st.mem[fld(pt, S, 'tag', e)] = mk('TG', e)
        if vxarg is not None:
            for e in range(self.ne):
                st.mem[mk('idx', A[vxarg], mk('c', e))] = mk('M', e) if flag >> e & 1 else mk('c', 0)
            st.mem[A[vxarg]] = st.mem[mk('idx', A[vxarg], mk('c', 0))]
        for p, v in (extra or {}).items(): st.mem[p] = v
        if pre: pre(st, base)
        roots = {base, xtp, ptp}
        def track(p):
            fs = [q for q in parents(p)]
            if fs[-1][0] == 'loc': return True
            for q in fs:
                if q[0] == 'fld' and q[2] in KEEP: return q[3] in KEEP[q[2]]
            return p[0] == 'idx' and p[1] in roots
        def decide(F, c, st):
            if c[0] != 'cmp': return None
            a, b = c[2], c[3]
            if a[0] == 'V' and b[0] == 'V':
                k = {'slt': 0, 'sle': 0, 'sgt': 1, 'sge': 1}.get(c[1])
                if k is None: return {'eq': False, 'ne': True}[c[1]]
                lt = order(st.facts)
                if k: a, b = b, a
                if (a, b) in lt: return True
                if (b, a) in lt: return False
                if k:
                    # remember it in the same form as the other comparisons
                    return ('as', mk('cmp', 'slt', a, b))
                return 'rec'
            if a[0] == 'vol' or b[0] == 'vol': return 'rec'
            if c[1] in ('eq', 'ne') and b == ('c', 0):
                if a[0] == 'call' and a[1] in self.new: return c[1] == 'ne'
                if a[0] in ('M', 'V', 'X', 'R', 'FT', 'REF', 'NXT', 'B'): return c[1] == 'ne'
            if c[1] in ('sgt', 'sge', 'slt', 'sle') and b == ('c', 0) and a[0] in ('M', 'V', 'B'): return c[1] in ('sgt', 'sge')
            if c[1] in ('sgt', 'sge', 'slt', 'sle'):
                sa, sb = repr(a), repr(b)
                if "'xtmax'" in sa + sb: return ("'xtmax'" in sa) == (c[1] in ('sgt', 'sge'))
                if a[0] == 'ED' and b == ('c', 0): return 'rec'
            return None
        def call(F, i, n, args, st):
            if n in VOLUME:
                v = args[1]
                if n == 'MMG5_nonUnitNorPts': t = tuple(args[1:4])
                else:
                    if n == 'MMG2D_quickcal': v = mk('fld', v if not I.arrays.get(v) else mk('idx', v, mk('c', 0)), TRI, 'v')
                    elif v is not TOP and v[0] == 'idx' and v[1][0] == 'fld': v = v[1]
                    t = tuple(st.load(mk('idx', v, mk('c', x))) for x in range(self.nv))
                if n == 'MMG5_nonUnitNorPts': st.log = tuple(sorted(set(st.log) | {t})); return TOP
                return mk('vol', *t)
            if n in self.new: return None
            G = P.resolve(F, n)
            if G is not None and (n in self.inline or n.endswith(('_cfg', '_globNum', '_crea_newTetra'))): return 'inline'
            return TOP
        I = Interp(P, track, decide, call)
        I.arrays = {base: S, xtp: XT, ptp: 'struct.MMG5_Point'}
        return F, A, I.run(F, A, st)

def bary(l, n=4):
    if l is None: return None
    if l[0] == 'V': c = [Q(0)] * n; c[l[1]] = Q(1); return tuple(c)
    if l[0] == 'M':
        c = [Q(0)] * n
        for a in (IARE[l[1]] if n == 4 else ((l[1] + 1) % 3, (l[1] + 2) % 3)): c[a] = Q(1, 2)
        return tuple(c)
    if l[0] == 'B': return (Q(1, n),) * n
    return None

def det(m):
    n = len(m)
    if n == 1: return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n) if m[0][j])

def vol(t): return det([list(bary(l, len(t))) for l in t])

def tris_of_face(f, flag, lt):
    """expected triangulation of parent face f (set of label triples); None if the order of the two ends is not known"""
    a = [x for x in range(4) if x != f]
    ed = [(e, s) for e, s in enumerate(IARE) if f not in s]
    mk_ = [e for e, s in ed if flag >> e & 1]
    V = lambda i: mk('V', i)
    M = lambda e: mk('M', e)
    opp = lambda e: [x for x in a if x not in IARE[e]][0]
    if not mk_: return {frozenset(V(x) for x in a)}
    if len(mk_) == 1:
        e = mk_[0]; p, q = IARE[e]
        return {frozenset((V(opp(e)), V(x), M(e))) for x in (p, q)}
    if len(mk_) == 3:
        r = {frozenset(M(e) for e in mk_)}
        for x in a: r.add(frozenset([V(x)] + [M(e) for e in mk_ if x in IARE[e]]))
        return r
    e1, e2 = mk_
    c = (set(IARE[e1]) & set(IARE[e2])).pop()
    p = [x for x in IARE[e1] if x != c][0]; q = [x for x in IARE[e2] if x != c][0]
    if (V(p), V(q)) in lt: pass
    elif (V(q), V(p)) in lt: p, q, e1, e2 = q, p, e2, e1
    else: return None
    # the cut starts from the smaller end p, towards the middle of c-q
    return {frozenset((V(c), M(e1), M(e2))), frozenset((V(p), M(e1), M(e2))), frozenset((V(p), V(q), M(e2)))}

def tiling(tets, flag, lt):
    """-> None or a description of what is wrong with this decomposition of the parent"""
    for t in tets:
        if any(bary(l) is None for l in t): return 'an element with an undefined vertex %s' % show(t)
        if vol(t) <= 0: return 'element %s is %s' % (show(t), 'flat' if vol(t) == 0 else 'inverted')
    s = sum(vol(t) for t in tets)
    if s != 1: return 'the elements fill %s of the parent' % s
    faces = {}
    for t in tets:
        for f in range(4): faces.setdefault(frozenset(t[x] for x in range(4) if x != f), []).append(t)
    got = {f: set() for f in range(4)}
    for fc, l in faces.items():
        on = [f for f in range(4) if all(bary(x)[f] == 0 for x in fc)]
        if on: got[on[0]].add(fc)
        if len(l) != (1 if on else 2): return 'face %s belongs to %d element(s)' % (show(fc), len(l))
    for f in range(4):
        w = tris_of_face(f, flag, lt)
        if w is None: return 'parent face %d is cut without regard to the order of its vertices' % f
        if w != got[f]: return 'parent face %d is cut into {%s}, its neighbour cuts it into {%s}' % (f, ' '.join(sorted(map(show, got[f]))), ' '.join(sorted(map(show, w))))
    return None

def show(t): return '-'.join('%s%d' % (x[0].lower(), x[1]) if len(x) > 1 and isinstance(x[1], int) else x[0] for x in (t if isinstance(t, tuple) else sorted(t)))

def tiling2(tris, flag):
    for t in tris:
        if any(bary(l, 3) is None for l in t): return 'an element with an undefined vertex %s' % show(t)
        if vol(t) <= 0: return 'element %s is %s' % (show(t), 'flat' if vol(t) == 0 else 'inverted')
    if sum(vol(t) for t in tris) != 1: return 'the elements fill %s of the parent' % sum(vol(t) for t in tris)
    ed = {}
    for t in tris:
        for i in range(3): ed.setdefault(frozenset((t[(i + 1) % 3], t[(i + 2) % 3])), []).append(t)
    want = set()
    for e in range(3):
        a, b = mk('V', (e + 1) % 3), mk('V', (e + 2) % 3)
        want |= {frozenset((a, mk('M', e))), frozenset((b, mk('M', e)))} if flag >> e & 1 else {frozenset((a, b))}
    got = set()
    for e, l in ed.items():
        on = any(all(bary(x, 3)[j] == 0 for x in e) for j in range(3))
        if on: got.add(e)
        if len(l) != (1 if on else 2): return 'edge %s belongs to %d element(s)' % (show(e), len(l))
    if got != want: return 'the sides are cut into %s instead of %s' % (sorted(map(show, got)), sorted(map(show, want)))
    return None

def elements(s, tetp, S=TET):
    """tetra index expression -> {field: value} of the result state"""
    els = {}
    for q, x in s.mem.items():
        i = None; f = q
        if f[0] == 'idx' and f[1][0] == 'fld': i = f[2]; f = f[1]
        if f[0] == 'fld' and f[2] == S and f[1][0] == 'idx' and f[1][1] is tetp and f[1][2] != ('c', 0): els.setdefault(f[1][2], {})[(f[3], i[1]) if i else f[3]] = x
    return els

NOREF = None
def attributes(s, A, els, bdy, xtp, ftmask):
    """boundary attributes of the new elements -> None or what is wrong"""
    mesh = A[0]
    used = {}
    for k, e in els.items():
        t = tuple(e.get(('v', i)) for i in range(4))
        P_ = [bary(l) for l in t]
        if e.get('ref') is not mk('REF') and s.load(mk('fld', mk('idx', mk('ld', mk('fld', mesh, MESH, 'tetra')), k), TET, 'ref')) is not mk('REF'):
            return 'element %s does not keep the material reference of its parent' % show(t)
        if 'flag' in e and e['flag'] != mk('c', 0): return 'element %s keeps the edge marks of its parent' % show(t)
        fl = []
        for f in range(4):
            on = [j for j in range(4) if all(P_[x][j] == 0 for x in range(4) if x != f)]
            fl.append(on[0] if on else None)
        x = e.get('xt')
        need = any(j is not None and j in (bdy or ()) for j in fl)
        if x is None: return 'element %s: boundary record index is not set' % show(t)
        if x == mk('c', 0):
            if need: return 'element %s lies on the boundary but has no boundary record' % show(t)
            continue
        if not need and bdy is not None and False: return 'x'
        if bdy is None: return 'element %s gets a boundary record while its parent has none' % show(t)
        if x in used: return 'elements %s and %s share one boundary record' % (show(t), show(used[x]))
        used[x] = t
        o = mk('idx', xtp, x)
        def ld(f, i=None):
            p = mk('fld', o, XT, f)
            return s.load(p if i is None else mk('idx', p, mk('c', i)))
        Z = mk('c', 0)
        ori = ld('ori')
        if ori[0] == 'or' and ori[2][0] == 'c': base, bits = ori[1], ori[2][1]
        elif ori[0] == 'c': base, bits = None, ori[1]
        else: base, bits = ori, 0
        if base is not None and base != mk('ORI'): return 'element %s: orientation flags come from %r' % (show(t), ori)
        for f in range(4):
            j = fl[f]; nm = 'face %s of element %s' % (show(tuple(t[y] for y in range(4) if y != f)), show(t))
            wr = mk('R', j) if j is not None and j in bdy else Z
            wt = mk('FT', j) if j is not None and j in bdy else Z
            if ld('ref', f) != wr: return '%s: reference is %s instead of %s' % (nm, lab(ld('ref', f)), lab(wr))
            if ld('ftag', f) != wt: return '%s: tag is %s instead of %s' % (nm, lab(ld('ftag', f)), lab(wt))
            if j is None:
                if not bits >> f & 1: return '%s: interior face without the orientation flag' % nm
            elif base is None or bits >> f & 1 or j != f: return '%s: orientation flag is not the one of parent face %d' % (nm, j)
        for n, (a, b) in enumerate(IARE):
            pe = [m for m, (p, q) in enumerate(IARE) if all(P_[y][z] == 0 for y in (a, b) for z in range(4) if z not in (p, q))]
            pf = [j for j in range(4) if P_[a][j] == 0 and P_[b][j] == 0]
            nm = 'edge %s of element %s' % (show((t[a], t[b])), show(t))
            tg, ed = ld('tag', n), ld('edg', n)
            if pe:
                if tg != mk('TG', pe[0]) or ed != mk('ED', pe[0]): return '%s: tag %s and reference %s instead of those of parent edge %d' % (nm, lab(tg), lab(ed), pe[0])
            else:
                if ed != Z: return '%s: new edge with reference %s' % (nm, lab(ed))
                if len(pf) == 1 and pf[0] in bdy:
                    if tg != mk('FT', pf[0]) and not (tg[0] == 'and' and tg[1] == mk('FT', pf[0]) and tg[2] == mk('c', ftmask)): return '%s: tag %s instead of the tag of parent face %d' % (nm, lab(tg), pf[0])
                elif tg != Z: return '%s: interior edge with tag %s' % (nm, lab(tg))
    n = s.load(mk('fld', mesh, MESH, 'xt'))
    if used:
        last = plus(n)
        if last is None: return 'number of boundary records becomes %r' % (n,)
        for x, t in used.items():
            k = 0 if x == mk('X') else plus(x)
            if k is None: return 'boundary record index of %s is %r' % (show(t), x)
            if x != mk('X') and not 0 < k <= last: return 'boundary record of %s lies beyond the declared number' % show(t)
        if last > len(used) : return '%d boundary records are allocated, %d are used' % (last, len(used))
    return None

def plus(n):
    if n[0] == 'NXT': return 0
    if n[0] == 'add' and mk('NXT') in n[1:]:
        c = [y for y in n[1:] if y != mk('NXT')]
        if len(c) == 1 and c[0][0] == 'c': return c[0][1]
    return None

def lab(x):
    n = {'R': 'the reference of parent face %d', 'FT': 'the tag of parent face %d', 'TG': 'the tag of parent edge %d', 'ED': 'the reference of parent edge %d'}
    if x[0] in n: return n[x[0]] % x[1]
    if x[0] == 'c': return str(x[1])
    if x[0] == 'and': return '%s masked with %s' % (lab(x[1]), lab(x[2]))
    return repr(x)[:60]

def patterns3():
    """subdivision routine -> the edge-mark patterns it is made for"""
    pat = {}
    for f in range(1, 64):
        es = [e for e in range(6) if f >> e & 1]; n = len(es)
        deg = [sum(1 for e in es if v in IARE[e]) for v in range(4)]
        if n == 2: k = 'split2sf' if set(IARE[es[0]]) & set(IARE[es[1]]) else 'split2'
        elif n == 3: k = 'split3cone' if 3 in deg else 'split3' if 0 in deg else 'split3op'
        elif n == 4: k = 'split4op' if deg == [2] * 4 else 'split4sf'
        else: k = 'split%d' % n
        pat.setdefault(k, []).append(f)
    return pat

def orders(n=4):
    for p in itertools.permutations(range(n)): yield {(mk('V', p[i]), mk('V', p[j])) for i in range(n) for j in range(i + 1, n)}

def parity(a, b):
    """+1/-1: b is an even/odd permutation of a; None: not a permutation"""
    if len(set(a)) != len(a) or set(a) != set(b): return None
    p = [a.index(x) for x in b]
    return 1 if sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2 == 0 else -1

def tested(s):
    """vertex lists whose volume was found large enough on the way to this state"""
    r = set(s.log)
    for c, v in s.facts:
        a, b, op = c[2], c[3], c[1]
        if b[0] == 'vol' and a[0] != 'vol': a, b = b, a; op = op.translate(str.maketrans('lg', 'gl'))
        if a[0] != 'vol': continue
        if op in ('olt', 'ole', 'ult', 'ule') and not v or op in ('ogt', 'oge', 'ugt', 'uge') and v: r.add(a[1:])
    return r

def attributes2(s, M, els):
    """material and side data of the triangles cut from one triangle"""
    for k, e in els.items():
        t = tuple(e.get(('v', i)) for i in range(3)); P_ = [bary(l, 3) for l in t]
        if e.get('ref') != mk('REF') and s.load(mk('fld', mk('idx', M.base, k), TRI, 'ref')) != mk('REF'): return 'element %s does not keep the material reference of its parent' % show(t)
        if 'flag' in e and e['flag'] != mk('c', 0): return 'element %s keeps the edge marks of its parent' % show(t)
        for i in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            on = [j for j in range(3) if P_[a][j] == 0 and P_[b][j] == 0]
            nm = 'side %s of element %s' % (show((t[a], t[b])), show(t))
            tg = e.get(('tag', i)); ed = e.get(('edg', i))
            wt, we = (mk('TG', on[0]), mk('ED', on[0])) if on else (mk('c', 0), mk('c', 0))
            if tg != wt: return '%s: tag is %s instead of %s' % (nm, lab(tg), lab(wt))
            if ed != we: return '%s: reference is %s instead of %s' % (nm, lab(ed), lab(we))
    for q, x in s.mem.items():
        if q[0] == 'fld' and q[2] == 'struct.MMG5_Point' and q[3] == 'ref':
            p = q[1][2] if q[1][0] == 'idx' else None
            if p is None or p[0] not in ('M', 'B'): return 'the reference of another vertex is changed'
            if p[0] == 'M' and x != mk('ED', p[1]): return 'the new vertex on side %d gets %s as reference' % (p[1], lab(x))
    return None
