"""The subdivision routines are interpreted abstractly on one element whose vertices and edge midpoints are opaque labels, for
every edge-mark pattern they are made for (all 63 patterns of a tetrahedron, all 7 of a triangle); where the code compares
global vertex numbers, both outcomes are followed. For each outcome the labels that reach the vertices of the resulting elements
are compared, in exact barycentric coordinates, with the definition of a tiling: every element positively oriented, volumes adding up to the
parent, interior faces shared by two elements, and every parent face cut in the way fixed by the marks and by the global numbers on that face
alone (so the neighbour cuts it alike). The *_sim routines must return success only after testing the volume of each of those elements. Every dispatch
on the marks must reach the routine made for them."""
from ..splitsim import *
from multiprocessing import Pool

PT3 = patterns3()
SIM3 = {k: 'MMG3D_%s_sim' % k for k in PT3}
PT2 = {'split1': [1, 2, 4], 'split2': [3, 5, 6], 'split3': [7]}

def jobs():
    for k, fl in PT3.items():
        for f in fl: yield ('3d', 'MMG5_' + k, SIM3[k], f)
    for e in range(6): yield ('1b', 'MMG5_split1b_eltspl', None, 1 << e)
    yield ('bar', 'MMG5_split4bar', None, 0)
    for k, fl in PT2.items():
        for f in fl:
            yield ('2d', 'MMG2D_' + k, 'MMG2D_%s_sim' % k, f)
            yield ('s', 'MMGS_' + k, 'MMG5_split2_sim' if k == 'split2' else 'MMGS_%s_sim' % k, f)
    yield ('bar2', 'MMG2D_splitbar', None, 0)

def model(P, kind, fn, flag, bdy=None):
    """-> (model, F, args, result states)"""
    if kind == '3d':
        M = Model(P); return (M,) + M.run(fn, flag, bdy)
    if kind == 'bar':
        M = Model(P)
        M.new = M.new + ('MMG3D_newPt',)
        return (M,) + M.run(fn, flag, bdy, vxarg=None)
    if kind == '1b':
        M = Model(P); e = flag.bit_length() - 1
        return (M,) + M.run1b(fn, e, bdy)
    M = Model(P, 2)
    if kind == '2d': return (M,) + M.run(fn, flag, karg=2)
    if kind == 's':
        if M.P.need(fn).nargs == 5: return (M,) + M.run(fn, flag, args={3: mk('c', flag.bit_length() - 1)}, vxarg=4)
        return (M,) + M.run(fn, flag)
    if kind == 'bar2': return (M,) + M.run(fn, flag, karg=1, args={2: mk('B')}, vxarg=None)

def point(x): return mk('B') if x is not None and x[0] == 'call' and x[1] == 'MMG3D_newPt' else x

def verts(M, els): return [tuple(point(e.get(('v', i))) for i in range(M.nv)) for e in els.values()]

def work(j):
    kind, fn, sim, flag = j
    P = PROG
    out = []; n = 0
    M, F, A, r = model(P, kind, fn, flag)
    created = []
    for v, s in r:
        if kind == 'bar2' and v == mk('c', 0) and verts(M, elements(s, M.base, M.S)) == [tuple(mk('V', i) for i in range(3))]: continue  # refused, nothing changed
        if v is not None and v[0] == 'c' and v[1] == 0 or v is not None and v[0] not in ('c', 'call', 'B'):
            out.append('%s fails or returns an unknown value for pattern %d (%r)' % (fn, flag, v)); continue
        lt = order(s.facts); n += 1
        els = elements(s, M.base, M.S)
        ts = verts(M, els)
        b = tiling(ts, flag, lt) if M.nv == 4 else tiling2(ts, flag)
        if b: out.append('pattern %d%s: %s' % (flag, ' with ' + ' '.join(sorted('v%d<v%d' % (a[1], b[1]) for a, b in lt)) if lt else '', b))
        created.append((lt, ts))
    if not created: out.append('pattern %d: no successful outcome' % flag)
    if sim and not out:
        if kind == 's':
            G = P.need(sim)
            a = dict(args={3: mk('c', flag.bit_length() - 1)}, vxarg=4) if G.nargs == 5 else {}
            G, A, rs = M.run(sim, flag, **a)
        else: G, A, rs = M.run(sim, flag)
        ok = [(order(s.facts), tested(s)) for v, s in rs if v is None or v != ('c', 0)]
        if not ok: out.append('pattern %d: %s never succeeds' % (flag, sim))
        for o in (orders() if M.nv == 4 else [set()]):
            real = [ts for lt, ts in created if lt <= o]
            sims = [t for lt, t in ok if lt <= o]
            for ts in real:
                for t in sims:
                    n += 1
                    for x in ts:
                        if not any(parity(x, y) == 1 for y in t):
                            m = 'pattern %d: %s accepts the subdivision without testing the element %s that %s creates' % (flag, sim, show(x), fn)
                            if m not in out: out.append(m)
    return j, n, F.loc(), out

def dispatch(c, P):
    """switches on the marks of an element lead to the routine made for them"""
    adm = {}
    for k, fl in PT3.items():
        adm['MMG5_' + k] = adm[SIM3[k]] = set(fl)
    for k, fl in PT2.items():
        adm['MMG2D_' + k] = adm['MMG2D_%s_sim' % k] = set(fl)
    for F in P.fns.values():
        calls = {}
        for i in F.calls():
            n = F.callee(i)
            if n in adm: calls.setdefault(i.bb, []).append((n, i))
        if not calls: continue
        for b, blk in enumerate(F.blocks):
            t = blk[-1]
            if t.op != 'switch': continue
            m = F.ipdom.get(b)
            def reach(s):
                seen = set(); st = [s]; r = []
                while st:
                    x = st.pop()
                    if x in seen or x == m or x == b: continue
                    seen.add(x)
                    if x in calls: r += calls[x]; continue
                    st += F.succs[x]
                return r
            cases = {v: reach(s) for v, s in t.a[2]}
            if not any(cases.values()): continue
            if not any(v > 3 for v in cases) : continue
            for v, l in sorted(cases.items()):
                for n, i in l:
                    c.ob('dispatched patterns', '%s: %d -> %s' % (F.name, v, n))
                    if v not in adm[n]:
                        c.violation('dispatch:%s:%d:%s' % (F.name, v, n), i.loc(), 'pattern %d is sent to %s, which is made for %s' % (v, n, sorted(adm[n])))

def run(c):
    global PROG
    P = PROG = c.prog('ndebug')
    c.rule(__doc__)
    J = list(jobs())
    with Pool(8) as pool: res = pool.map(work, J, chunksize=1)
    for (kind, fn, sim, flag), n, loc, out in res:
        c.ob('patterns', '%s pattern %d' % (fn, flag)); c.count('outcomes', n)
        if sim: c.count('simulations compared')
        for k, m in enumerate(out[:3]): c.violation('%s:%d%s' % (fn, flag, '' if not k else ':%d' % k), loc, '%s, %s' % (fn, m))
    dispatch(c, P)
    c.floor('patterns', 63 + 6 + 1 + 14 + 1); c.floor('outcomes', 1000); c.floor('simulations compared', 77); c.floor('dispatched patterns', 250)
