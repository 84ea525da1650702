"""The references and tags of the element to subdivide, of its faces and of its edges are opaque labels that are propagated through the
subdivision routines for every edge-mark pattern, every vertex order the code distinguishes, and every choice of the boundary faces
(none, all, each one alone). In each outcome every new element must carry the material label of its parent; every face and edge lying on a face or edge of the parent
must carry exactly that one's labels; faces inside carry none and are flagged as inside; edges drawn across a parent face carry that face's tag
without the reference bit and no reference; inner edges carry nothing; boundary records are distinct and within the declared number. The same is decided
for triangles (side tags and references, references given to new vertices)."""
from ..splitsim import *
from .a28 import jobs, model, point
from multiprocessing import Pool

def work(j):
    kind, fn, sim, flag = j
    P = PROG; out = []; n = 0
    tri = kind in ('2d', 's', 'bar2')
    for bdy in ([None] if tri else [None, {0, 1, 2, 3}, {0}, {1}, {2}, {3}]):
        M, F, A, r = model(P, kind, fn, flag, bdy)
        for v, s in r:
            if v == mk('c', 0): continue
            n += 1
            els = elements(s, M.base, M.S)
            for e in els.values():
                for i in range(M.nv): e[('v', i)] = point(e.get(('v', i)))
            if any(bary(e[('v', i)], M.nv) is None for e in els.values() for i in range(M.nv)): continue   # decided by A28
            b = attributes2(s, M, els) if tri else attributes(s, A, els, bdy, M.xtp, MASK)
            if b:
                lt = order(s.facts)
                m = 'pattern %d%s%s: %s' % (flag, '' if bdy is None else ' with boundary face%s %s' % ('s' if len(bdy) > 1 else '', sorted(bdy)), ' and ' + ' '.join(sorted('v%d<v%d' % (a[1], b_[1]) for a, b_ in lt)) if lt else '', b)
                if len(out) < 3: out.append(m)
    return j, n, F.loc(), out

def run(c):
    global PROG, MASK
    P = PROG = c.prog('ndebug')
    c.rule(__doc__)
    MASK = -2                       # everything but MG_REF (bit 0)
    with Pool(8) as pool: res = pool.map(work, list(jobs()), chunksize=1)
    for (kind, fn, sim, flag), n, loc, out in res:
        c.ob('patterns', '%s pattern %d' % (fn, flag)); c.count('outcomes', n)
        for k, m in enumerate(out): c.violation('%s:%d%s' % (fn, flag, '' if not k else ':%d' % k), loc, '%s, %s' % (fn, m))
    c.floor('patterns', 85); c.floor('outcomes', 900)
