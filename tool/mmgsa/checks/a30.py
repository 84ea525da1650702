"""Each local operation on tetrahedra (MMG5_split1b on a whole edge shell, MMG3D_swap23, MMG5_split4bar, MMG5_colver) is propagated over
a patch of tetrahedra with opaque vertices, references and tags: every pair of faces and rotation for the swap, shells of 1 to 5
elements (open and closed, both directions, 12 sequences of local numberings), every rotation for the barycentre, five kinds of balls
(inside, on a boundary, on an edge of the boundary) for the collapse, and the possible kinds of outer faces (no boundary, boundary of the
domain, interface between materials).  When the operation succeeds: no element is degenerate, the hull of the patch is kept, the neighbour recorded across
each face is the one the vertices say, in both directions; elements keep their material; every boundary face keeps its reference, tags and
orientation in the boundary record of its element, inner faces carry none, records are not shared; kept edges keep their tags and
new ones carry none (swap, barycentre), merged edges only carry the data of the edges merged into them (collapse)."""
from ..patch3 import *
from multiprocessing import Pool

def work(j):
    op, lo = j
    return dict(swap23=swap23, split1b=split1b, bar=bar, collapse=collapse)[op](lo)

class Acc:
    def __init__(self, fn, op, W): self.fn = fn; self.op = op; self.W = W; self.out = {}; self.n = 0
    def settle(self, case, r, patch, hull, verts, **kw):
        good = 0
        for v, s in r:
            if v not in (mk('c', 1), mk('V', 'p'), mk('V', 'm')): continue
            self.n += 1; good += 1
            b = judge3(self.W.result(s, patch), patch, hull, verts, **kw)
            if b: self.out.setdefault(b.split(' of element')[0][:30], '%s: %s' % (case, b))
        if not good: self.out.setdefault('none', '%s: never succeeds' % case)
    def done(self): return self.op, self.fn, self.n, PROG.need(self.fn).loc(), self.out

def swap23(j0):
    fn = 'MMG3D_swap23'; W = Patcher3(PROG); A = Acc(fn, 'swap23', W)
    IDIR = FACES
    for j1 in range(4):
        for r in range(3):
            v = [None] * 4; v[j0] = 'p'
            for x, n in zip(FACES[j0], 'abc'): v[x] = n
            w = [None] * 4; w[j1] = 'q'; sh = ['c', 'b', 'a']
            for x, n in zip(FACES[j1], sh[r:] + sh[:r]): w[x] = n
            i = [w[x] for x in FACES[j1]].index(v[FACES[j0][0]])
            for m in range(64):
                for ib in (0, 1, 2):
                    p = Patch3(); p.t = {7: v[:], 12: w[:]}; p.ref = {7: 3, 12: 3}
                    hull = p.hull(); top = [n for n, f in enumerate(hull) if 'p' in f]
                    if bin(sum(1 << n for n in top) & m).count('1') < 2: continue
                    kinds = ['n' if not m >> n & 1 else 'b' if ib == 0 or ib == 2 and n & 1 else 'i' for n in range(6)]
                    # the faces of one new element: at most one on the boundary, unless the second element has no record
                    byedge = {}
                    for n, f in enumerate(hull):
                        if kinds[n] != 'n': byedge.setdefault(name(*(set(f) - set('pq'))), []).append(n)
                    if any(len(x) > 1 for x in byedge.values()): continue
                    p.close(kinds); p.records()
                    a = p.adj()[(7, j0)]
                    F, res = W.run(fn, p, {2: 7, 3: 0, 4: j0, 5: 3 * j0, 6: 4 * a[0] + a[1], 7: 3 * j1 + i})
                    A.settle('face %d against face %d turned by %d, outer faces %s' % (j0, j1, r, ''.join(kinds)), res, p, hull, set('abcpq'), faces=True, edges=True)
    return A.done()

def shell(n, closed, phase, rev):
    p = Patch3(); ring = ['r%d' % k for k in range(n + (not closed))]; ids = [5, 9, 13, 17, 31, 35]; lst = []
    for k in range(n):
        x, y = ring[k], ring[(k + 1) % len(ring)]
        p.add(ids[k], ['u', 'w', x, y], phase + k * (1 + phase % 5))
    for k in (range(n) if not rev else reversed(range(n))):
        v = p.t[ids[k]]
        e = [z for z, (a, b) in enumerate(IARE) if name(v[a], v[b]) == 'uw'][0]
        lst.append(6 * ids[k] + e)
    return p, lst

def split1b(phase):
    fn = 'MMG5_split1b'; W = Patcher3(PROG, inline=('MMG5_split1b_eltspl',)); A = Acc(fn, 'split1b', W)
    for n, closed in ((1, False), (2, False), (3, False), (3, True), (4, True), (5, True)):
        for rev in (False, True):
            p0, lst = shell(n, closed, phase, rev); hull = p0.hull()
            nb = [k for k, f in enumerate(hull) if not ('u' in f and 'w' in f)]
            for m in range(1 << len(nb)) if n < 3 else (0, 0xfff, 0x555, 0xaaa, 0x333):
                p, lst = shell(n, closed, phase, rev)
                kinds = ['b'] * len(hull)
                for x, k in enumerate(nb): kinds[k] = 'n' if m >> x & 1 else 'b'
                p.close(kinds, 60); p.records()
                F, res = W.run(fn, p, {3: 2 * n + (not closed), 4: mk('V', 'm'), 5: 0, 6: 0, 7: 0}, {2: lst})
                h2 = []
                for f in hull:
                    if 'u' in f and 'w' in f:
                        for z in 'uw': h2.append(p.key(tuple('m' if y == z else y for y in f)))
                    else: h2.append(f)
                A.settle('shell of %d tetrahedra (%s), phase %d%s, outer faces %s' % (n, 'closed' if closed else 'open', phase, ' backwards' if rev else '', ''.join(kinds)), res, p, sorted(h2),
                         {z for k, v in p.t.items() if k not in p.outer for z in v} | {'m'})
    return A.done()

def bar(rot):
    fn = 'MMG5_split4bar'; W = Patcher3(PROG); A = Acc(fn, 'bar', W)
    for kinds in itertools.product('nbi', repeat=4):
        p = Patch3(); p.add(7, 'abcd', rot); hull = p.hull(); p.close(kinds); p.records(force=(7,))
        F, res = W.run(fn, p, {2: 7, 3: 0})
        A.settle('vertices turned by %d, outer faces %s' % (rot, ''.join(kinds)), res, p, hull, set('abcdm'), faces=True, edges=True)
    return A.done()

def balls():
    """(name, tetrahedra (p, x, y, z), boundary vertex)"""
    yield 'vertex inside a tetrahedron', [('p', 'q', 'a', 'b'), ('p', 'q', 'b', 'c'), ('p', 'q', 'c', 'a'), ('p', 'a', 'c', 'b')]
    eq = ['q', 'r1', 'r2', 'r3']; top = [('p', eq[k], eq[(k + 1) % 4], 's') for k in range(4)]; bot = [('p', eq[(k + 1) % 4], eq[k], 't') for k in range(4)]
    yield 'vertex inside an octahedron', top + bot
    yield 'vertex on a boundary, along it', top
    yield 'vertex on a ridge', top[:3]
    yield 'vertex on a corner line', top[:2]

def collapse(j):
    fn = 'MMG5_colver'; W = Patcher3(PROG, inline=('MMG3D_update_edgeTag',)); A = Acc(fn, 'collapse', W)
    nb, phase = j % 5, j // 5
    nm, tets = list(balls())[nb]
    ids = [5, 9, 13, 17, 31, 35, 41, 45]
    def make():
        p = Patch3()
        for k, t in enumerate(tets): p.add(ids[k], t, phase + k * (1 + phase % 5))
        return p
    p0 = make(); hull = p0.hull(); free = [k for k, f in enumerate(hull) if 'p' not in f]
    h2 = sorted(p0.key(tuple('q' if x == 'p' else x for x in f)) for f in hull if not ('p' in f and 'q' in f))
    lst = [k for k in p0.t if 'q' in p0.t[k]] + [k for k in p0.t if 'q' not in p0.t[k]]
    lst = lst[:1] + lst[1:][::-1]
    pats = set(itertools.product('nbi', repeat=len(free))) if len(free) <= 4 else {tuple(x) for x in ('n' * 12, 'b' * 12, 'i' * 12, 'nbi' * 4, 'inb' * 4, 'nnbbii' * 2, 'nbbnib' * 2)}
    for pat in sorted(pats):
        for force in ((), tuple(ids)):
            p = make(); kinds = ['b'] * len(hull)
            for x, k in zip(pat, free): kinds[k] = x
            p.close(kinds); p.records(force)
            merged = {}
            for f in hull:
                if 'p' in f and 'q' not in f: merged[name(*('q' if x == 'p' else x for x in f))] = name(*f)
            for v in {x for t in tets for x in t} - set('pq'): merged[name('q', v)] = name('p', v)
            F, res = W.run(fn, p, {3: len(lst), 4: p.t[lst[0]].index('q'), 5: 0}, {2: [4 * k + p.t[k].index('p') for k in lst]})
            A.settle('%s, phase %d, outer faces %s%s' % (nm, phase, ''.join(kinds), ', records everywhere' if force else ''), res, p, h2, {x for t in tets for x in t} - {'p'}, faces=True, edges='within', merged=merged)
    return A.done()

def run(c):
    global PROG
    PROG = c.prog('ndebug'); c.rule(__doc__)
    J = [('swap23', k) for k in range(4)] + [('split1b', k) for k in range(12)] + [('bar', k) for k in range(12)] + [('collapse', k) for k in range(60)]
    with Pool(8) as pool: res = pool.map(work, J, chunksize=1)
    c.floor('operations', 88); c.floor('outcomes', 7000)
    for op, fn, n, loc, out in res:
        c.ob('operations', fn); c.count('outcomes', n)
        for k, m in sorted(out.items())[:3]: c.violation('%s:%s' % (fn, k), loc, '%s, %s' % (fn, m))
