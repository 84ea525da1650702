"""Each local operation on triangles (splitting an edge, swapping an edge, collapsing an edge, splitting at an inner vertex) is
propagated over a patch of triangles with opaque vertices, tags and references, for every position of the edge in its triangles
and every set of missing outer neighbours (for collapses: balls of 2 to 5 triangles, open and closed).  Whenever the operation
succeeds: no element is degenerate, the outline of the patch is kept, the neighbour recorded across each side is the element that
the vertices say (in both directions), kept edges keep their tags and references and new ones carry only what they must.  When it
refuses, the patch is unchanged."""
from ..patch import *
from multiprocessing import Pool

def rot(v, r): return [v[(i - r) % 3] for i in range(3)]     # v[0] goes to position r

def pair_cases(with_adj=(True, False)):
    for i in range(3):
        for wa in with_adj:
            for j in (range(3) if wa else [0]):
                n = 4 if wa else 3
                for m in range(1 << n):
                    p = Patch(); p.add(7, rot(['a', 'b', 'c'], i))
                    if wa: p.add(12, rot(['d', 'c', 'b'], j))
                    if p.close(m & ~(0 if wa else 0)) < n: pass
                    if not wa:
                        # the split side itself has no neighbour
                        if any(set('bc') <= set(p.t[k]) for k in p.outer): continue
                    yield i, wa, j, m, p

def fan(n, closed, r):
    """n triangles around vertex p in the order of the ball lists"""
    p = Patch(); ring = ['q'] + ['r%d' % k for k in range(1, n + (0 if closed else 1))]
    lst = []
    for k in range(n):
        x, y = ring[k], ring[(k + 1) % len(ring)]
        t = [5, 9, 13, 17, 31, 35][k]; ri = (r + k * (1 + r)) % 3
        p.add(t, rot(['p', x, y], ri)); lst.append(3 * t + ri)
    return p, lst

OPS = {'s': dict(split='split1b', swap='swapar', colver='colver', colver3='colver3', colver2='colver2'),
       '2d': dict(split='MMG2D_split1b', swap='MMG2D_swapar', colver='MMG2D_colver', colver3='MMG2D_colver3', colver2='MMG2D_colver2', bar='MMG2D_splitbar')}
def work(j):
    lib, op = j
    P = PROG; fn = OPS[lib][op]; W = Patcher(P, 4); out = {}; n = 0
    def settle(case, F, r, patch, chain, verts, **kw):
        nonlocal n
        good = 0
        for v, s in r:
            res = W.result(s, patch)
            if v == mk('c', 0):
                if not unchanged(res, patch, patch.adj()): out.setdefault('refusal', '%s: the operation is refused but the patch is changed' % case)
                continue
            n += 1; good += 1
            b = judge(res, patch, chain, verts, order=getattr(W, 'order', ()), **kw)
            if not b and W.gone != ({kw['collapse']} if 'collapse' in kw else set()): b = 'removes vertices %s' % sorted(W.gone)
            if b: out.setdefault(b.split(' of element')[0][:30], '%s: %s' % (case, b))
        if not good and op != 'swap': out.setdefault('none', '%s: never succeeds' % case)
    if op in ('split', 'swap'):
        for i, wa, jj, m, p in pair_cases((True, False) if op == 'split' else (True,)):
            case = 'side %d%s, outer neighbours %s' % (i, ' against side %d' % jj if wa else ' on the boundary', bin(m)[2:])
            if op == 'split':
                F, r = W.run(fn, p, {1: 7, 2: i, 3: mk('V', 'm')})
                ch = p.chain()
                if not wa: ch = sorted([x for x in ch if x != ('b', 'c')] + [('b', 'm'), ('m', 'c')])
                settle(case, F, r, p, ch, set('abcm') | (set('d') if wa else set()), newv=('m', ('b', 'c')))
            else:
                F, r = W.run(fn, p, {1: 7, 2: i})
                settle(case, F, r, p, p.chain(), set('abcd'))
    elif op == 'bar':
        for i in range(3):
            for m in range(8):
                p = Patch(); p.add(7, rot(['a', 'b', 'c'], i)); p.close(m)
                F, r = W.run(fn, p, {1: 7, 2: mk('V', 'm')})
                settle('vertices turned by %d, outer neighbours %s' % (i, bin(m)[2:]), F, r, p, p.chain(), set('abcm'))
    else:
        sizes = {'colver': [(4, True), (5, True), (3, False), (4, False)], 'colver3': [(3, True)], 'colver2': [(2, False)]}[op]
        for sz, closed in sizes:
            for r0 in range(3):
                p0, lst = fan(sz, closed, r0)
                nb = len(p0.chain())
                for m in range(1 << nb):
                    p, lst = fan(sz, closed, r0)
                    # sides at p itself have no neighbour in an open fan
                    ch = p.chain(); bits = 0
                    ok = True
                    for k, ab in enumerate(ch):
                        if 'p' in ab and m >> k & 1: ok = False
                    if not ok: continue
                    p.close(m, 20 if sz < 6 else 50)
                    if op == 'colver':
                        a = {2: sz} if lib == 's' else {1: sz}; arr = {1: lst} if lib == 's' else {2: lst}
                    else: a = {}; arr = {1: lst}
                    F, r = W.run(fn, p, a, arr)
                    if not closed:
                        x = [a_ for a_, b_ in ch if b_ == 'p'][0]; y = [b_ for a_, b_ in ch if a_ == 'p'][0]
                        ch = sorted([e for e in ch if 'p' not in e] + [(x, y)])
                    settle('ball of %d triangles (%s), rotation %d, outer neighbours %s' % (sz, 'closed' if closed else 'open', r0, bin(m)[2:]), F, r, p, ch,
                           {z for k, v in p.t.items() if k not in p.outer for z in v} - {'p'}, collapse='p', into='q' if op != 'colver2' else None)
    return j, fn, n, P.need(fn).loc(), out

def run(c):
    global PROG
    PROG = c.prog('ndebug'); c.rule(__doc__)
    J = [(l, o) for l in OPS for o in OPS[l]]
    with Pool(8) as pool: res = pool.map(work, J, chunksize=1)
    c.floor('operations', 11); c.floor('outcomes', 1500)
    for j, fn, n, loc, out in res:
        c.ob('operations', fn); c.count('outcomes', n)
        for k, m in sorted(out.items())[:3]: c.violation('%s:%s' % (fn, k), loc, '%s, %s' % (fn, m))
