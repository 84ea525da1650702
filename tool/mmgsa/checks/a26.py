"""The constant tables of local numbering are read from the compiler's constant initialisers in every unit that has a copy and checked, entry by entry,
against the relations that define them (each relation determines every entry, up to the rotations that do not matter); the copies of all units
must satisfy the same relations. In the functions that renumber an element, the vertex permutation and the edge permutation chosen for a configuration are
propagated together: wherever the row of the edge permutation table is used with the vertex permutation, it must be the row of that permutation."""
from ..absint import *
from ..splitsim import IARE, parity
import itertools

def table(g):
    def cv(x):
        e = elems(x)
        if e is not None: return [cv(y) for y in e]
        if isinstance(x, dict) and 'i' in x: return x['i']
        if isinstance(x, dict) and ('z' in x or 'n' in x): return 0
        return None
    return cv(g['init'])

def signed(t):
    """tables of int8 written with unsigned values: 255 means -1"""
    if isinstance(t, list): return [signed(x) for x in t]
    return t - 256 if isinstance(t, int) and t >= 128 else t

DEF_IDIR = [[1, 2, 3], [0, 3, 2], [0, 1, 3], [0, 2, 1]]
PR_E = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)]
EVEN = [p for p in itertools.permutations(range(4)) if parity((0, 1, 2, 3), p) == 1]
ROWS = [(0, 1, 2, 3), (0, 2, 3, 1), (0, 3, 1, 2), (1, 0, 3, 2), (1, 2, 0, 3), (1, 3, 2, 0), (2, 0, 1, 3), (2, 1, 3, 0), (2, 3, 0, 1), (3, 0, 2, 1), (3, 1, 0, 2), (3, 2, 1, 0)]
def edge(a, b): return IARE.index((min(a, b), max(a, b)))
def edgeperm(t): return [edge(t[a], t[b]) for a, b in IARE]

def relations(name, T, all_):
    """yield (holds, description) for every entry"""
    get = lambda n: all_.get(n)
    idir = get('MMG5_idir') or DEF_IDIR
    if name == 'MMG5_inxt2':
        for k in range(6): yield T[k] == (k + 1) % 3, '[%d] is the next vertex of a triangle' % k
    elif name == 'MMG5_iprv2':
        for k in range(3): yield T[k] == (k + 2) % 3, '[%d] is the previous vertex of a triangle' % k
    elif name in ('MMG5_inxt3', 'MMG5_iprv3'):
        for k in range(7): yield T[k] == (k + (1 if name == 'MMG5_inxt3' else 3)) % 4, '[%d] is the %s vertex of a tetrahedron' % (k, 'next' if name == 'MMG5_inxt3' else 'previous')
    elif name == 'MMG5_idir':
        for i in range(4):
            yield sorted(T[i]) == [x for x in range(4) if x != i], '[%d] lists the vertices of the face opposite to vertex %d' % (i, i)
            yield parity((0, 1, 2, 3), (i,) + tuple(T[i])) == 1, '[%d] is oriented' % i
            yield T[i][0] == min(x for x in range(4) if x != i), '[%d] starts from the smallest vertex' % i
    elif name == 'MMG5_idirinv':
        for i in range(4):
            for v in range(4): yield T[i][v] == (-1 if v == i else idir[i].index(v) if v in idir[i] else None), '[%d][%d] is the rank of vertex %d in face %d' % (i, v, v, i)
    elif name == 'MMG5_iare':
        for e in range(6): yield tuple(T[e]) == IARE[e], '[%d] lists the end points of edge %d' % (e, e)
    elif name == 'MMG5_iarf':
        for i in range(4):
            for j in range(3):
                yield T[i][j] == edge(idir[i][(j + 1) % 3], idir[i][(j + 2) % 3]), '[%d][%d] is the edge of face %d opposite to its vertex %d' % (i, j, i, j)
    elif name == 'MMG5_iarfinv':
        iarf = [[edge(idir[i][(j + 1) % 3], idir[i][(j + 2) % 3]) for j in range(3)] for i in range(4)]
        for i in range(4):
            for e in range(6): yield T[i][e] == (iarf[i].index(e) if e in iarf[i] else -1), '[%d][%d] is the rank of edge %d in face %d' % (i, e, e, i)
    elif name == 'MMG5_ifar':
        for e in range(6): yield sorted(T[e]) == [x for x in range(4) if x not in IARE[e]] and T[e] == sorted(T[e]), '[%d] lists the faces sharing edge %d' % (e, e)
    elif name == 'MMG5_isar':
        for e in range(6): yield parity((0, 1, 2, 3), IARE[e] + tuple(T[e])) == 1, '[%d] is the opposite edge, positively turned around edge %d' % (e, e)
    elif name == 'MMG5_arpt':
        for v in range(4):
            oth = []
            for x in T[v]:
                p = IARE[x] if 0 <= x < 6 else ()
                oth += [y for y in p if y != v] if v in p else [None]
            yield parity((0, 1, 2, 3), (v,) + tuple(oth)) == 1, '[%d] lists the edges through vertex %d in turning order' % (v, v)
    elif name == 'MMG5_idir_pr':
        for f in range(5):
            tri = f < 2
            vs = T[f][:3] if tri else T[f]
            yield (not tri or T[f][3] == T[f][0]) and len(set(vs)) == (3 if tri else 4) and all(0 <= x < 6 for x in vs), '[%d] lists distinct vertices' % f
            yield all(tuple(sorted((vs[k], vs[(k + 1) % len(vs)]))) in PR_E for k in range(len(vs))), '[%d] runs along edges of the prism' % f
        d = [(l[k], l[(k + 1) % len(l)]) for f in range(5) for l in [T[f][:3] if f < 2 else T[f]] for k in range(len(l))]
        yield len(set(d)) == 18 and all((b, a) in d for a, b in d), 'the faces form a closed oriented surface'
        yield T[0][:3] == [0, 1, 2], '[0] is the bottom face'
    elif name == 'MMG5_iarf_pr':
        ip = get('MMG5_idir_pr') or [[0, 1, 2, 0], [3, 5, 4, 3], [1, 4, 5, 2], [0, 2, 5, 3], [0, 3, 4, 1]]
        for f in range(5):
            l = ip[f][:3] if f < 2 else ip[f]
            want = {tuple(sorted((l[k], l[(k + 1) % len(l)]))) for k in range(len(l))}
            row = T[f][:3] if f < 2 else T[f][:4]
            got = [PR_E[x] if 0 <= x < 9 else None for x in row]
            yield set(got) == want and len(row) == len(want), '[%d] lists the edges of face %d' % (f, f)
            if f < 2: yield T[f][3] == T[f][0], '[%d] is closed' % f
            elif None not in got: yield all(set(got[k]) & set(got[(k + 1) % 4]) for k in range(4)), '[%d] runs around the face' % f
    elif name == 'MMG5_permedge':
        for k in range(12): yield T[k] == edgeperm(ROWS[k]), '[%d] renumbers the edges as the vertex permutation %s does' % (k, list(ROWS[k]))
    elif name == 'MMG2D_idir':
        for k in range(5): yield T[k] == k % 3, '[%d] is the vertex number modulo 3' % k
    elif name == 'MMG2D_iare':
        for k in range(3): yield T[k] == [(k + 1) % 3, (k + 2) % 3], '[%d] lists the end points of the edge opposite to vertex %d' % (k, k)
    elif name == 'MMG2D_idir_q':
        sides = {frozenset(x) for x in T}
        yield sides == {frozenset((0, 1)), frozenset((1, 2)), frozenset((2, 3)), frozenset((3, 0))}, 'lists the four sides of a quadrilateral'
NAMES = {'MMG5_inxt2', 'MMG5_iprv2', 'MMG5_inxt3', 'MMG5_iprv3', 'MMG5_idir', 'MMG5_idirinv', 'MMG5_iare', 'MMG5_iarf', 'MMG5_iarfinv', 'MMG5_ifar', 'MMG5_isar', 'MMG5_arpt',
         'MMG5_idir_pr', 'MMG5_iarf_pr', 'MMG5_permedge', 'MMG2D_idir', 'MMG2D_iare', 'MMG2D_idir_q'}

def tables(c, P):
    units = {}
    for k, g in P.globals.items():
        if not isinstance(k, tuple): continue
        u, n = k
        if n in NAMES: units.setdefault(u, {})[n] = signed(table(g)); 
        if n in NAMES and not g['const']: c.violation('%s:const' % n, u, 'the table %s is not constant' % n)
    seen = {}
    for u, d in sorted(units.items()):
        for n, T in sorted(d.items()):
            seen.setdefault(n, []).append(u)
            try:
                for ok, what in relations(n, T, d):
                    c.ob('entries', '%s%s' % (n, what))
                    if not ok: c.violation('%s:%s' % (n, what), u, 'table %s: entry %s does not hold (%s)' % (n, what, T))
            except (IndexError, TypeError):
                c.violation('%s:shape' % n, u, 'table %s has missing or unknown entries (%s)' % (n, T))
    for n in sorted(NAMES):
        if n not in seen: c.count('tables without a copy')
        else: c.ob('tables', n)

def row(v):
    """row of the edge permutation table a constant operand points to"""
    if not isinstance(v, dict): return None
    if v.get('g') == 'MMG5_permedge': return 0
    if 'ge' in v and isinstance(v['ge'][1], dict) and v['ge'][1].get('g') == 'MMG5_permedge':
        ix = [x.get('i') for x in v['ge'][2]]
        return ix[1] if len(ix) > 1 and ix[0] == 0 else ix[0] if len(ix) == 1 and ix[0] == 0 else 'x'
    return None

def permutations(c, P):
    """blocks that pick a vertex permutation and a row of MMG5_permedge"""
    for F in P.fns.values():
        if not any('MMG5_permedge' in repr(i.a) for i in F.ins()): continue
        rows = {}
        for i in F.ins():
            if i.op == 'phi':
                for v, q in i.a[0]:
                    if row(v) is not None: rows.setdefault(q, []).append((row(v), i))
            elif i.op == 'store' and row(i.a[0][0]) is not None: rows.setdefault(i.bb, []).append((row(i.a[0][0]), i))
        for b, l in rows.items():
            cells = {}
            for i in F.blocks[b]:
                if i.op != 'store' or not (isinstance(i.a[0][0], dict) and 'i' in i.a[0][0]): continue
                p = F.expr(i.a[0][1])
                if p[0] == 'idx' and p[2][0] == 'c': cells.setdefault(p[1], {})[p[2][1]] = i.a[0][0]['i']
                elif p[0] in ('arg', 'loc', 'al', 'alloca'): cells.setdefault(p, {})[0] = i.a[0][0]['i']
            perms = []
            for q, d in cells.items():
                d = dict(d)
                if 0 not in d and q[0] == 'idx': continue
                if set(d) == {0, 1, 2, 3}: perms.append(tuple(d[k] for k in range(4)))
            for r, i in l:
                if not perms: c.count('rows chosen apart from the vertices'); continue
                c.ob('permutation pairs', '%s row %s with %s' % (F.name, r, perms[0]))
                if not isinstance(r, int) or not any(ROWS[r] == t for t in perms):
                    c.violation('perm:%s:%s:%s' % (F.name, r, perms[0]), F.blocks[b][0].loc() if F.blocks[b][0].line else i.loc(), '%s: the vertices are renumbered by %s but the edges by row %s, which belongs to %s' % (F.name, list(perms[0]), r, list(ROWS[r]) if isinstance(r, int) else '?'))

def run(c):
    P = c.prog('dbg')
    c.rule(__doc__)
    tables(c, P)
    permutations(c, P)
    c.floor('tables', 17); c.floor('entries', 700); c.floor('permutation pairs', 60)
