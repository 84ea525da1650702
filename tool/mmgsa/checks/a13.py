"""For every array that is enlarged in place (the field of a structure, or the pointer variable, that gets the result of a reallocation), the routines that may enlarge it are computed
over the call graph.  In every routine the registers, local arrays and parameters that hold an address inside that array are followed: from the moment the array
may have moved until they are computed again they must not be used to access memory or be handed to another routine (forward dataflow over all paths)."""
from ..own import *
from ..build import Broken

REALL = {'myrealloc', 'realloc', 'reallocarray'}

def cell(F, a):
    """the field a pointer to an array is kept in: 'MMG5_Mesh.point', or None"""
    e = F.expr(a)
    while e[0] == 'idx': e = e[1]
    if e[0] == 'fld': return '%s.%s' % (e[2].replace('struct.', ''), e[3])
    return None

def results(F, i):
    """registers the result of a call reaches by casts and phis"""
    out = {i.id}; w = [i.id]
    while w:
        v = w.pop()
        for u in F.ins():
            if (u.op in CASTS and u.a[0][0] == v or u.op == 'phi' and any(x == v for x, q in u.a[0])) and u.id not in out: out.add(u.id); w.append(u.id)
            if u.op == 'getelementptr' and u.a[1] == v and u.id not in out: out.add(u.id); w.append(u.id)
    return out

def run(c):
    c.rule(__doc__)
    for variant in ('dbg', 'ndebug'): one(c, c.prog(variant), variant)
    c.floor('reallocations (dbg)', 150); c.floor('arrays that are enlarged (dbg)', 12); c.floor('routines with addresses into such an array (dbg)', 500)

def one(c, P, variant):
    # where arrays move
    own = {}; cells = set()
    for F in P.fns.values():
        for i in F.ins():
            if i.op in ('call', 'invoke') and F.callee(i) in REALL:
                c.ob('reallocations (%s)' % variant, '%s in %s' % (i.loc(), F.name) if variant == 'dbg' else None)
                rs = results(F, i)
                for u in F.ins():
                    if u.op == 'store' and isinstance(u.a[0][0], int) and u.a[0][0] in rs:
                        x = cell(F, u.a[0][1])
                        if x: own.setdefault(F.key(), {}).setdefault(u.id if u.id is not None else (u.bb, u.pos), set()).add(x); cells.add(x); own[F.key()].setdefault('#', []).append((u, x))
    for x in sorted(cells): c.ob('arrays that are enlarged (%s)' % variant, x if variant == 'dbg' else None)
    moves = {k: {x for u, x in d['#']} for k, d in own.items()}
    callers = {}
    for F in P.fns.values():
        for i in F.ins():
            if i.op in ('call', 'invoke'):
                for t in P.targets(F, i): callers.setdefault(t.key(), set()).add(F.key())
    w = list(moves)
    while w:
        k = w.pop()
        for q in callers.get(k, ()):
            n = moves.setdefault(q, set())
            if not moves[k] <= n: n |= moves[k]; w.append(q)
    c.count('routines that may move an array (%s)' % variant, len(moves))
    # parameters that get an address inside an array
    params = {}
    D = {}
    todo = list(P.fns)
    def derive(F):
        """register -> cells it may point into; alloca -> cells"""
        d = {}; mem = {}
        for n in range(F.nargs):
            if params.get((F.key(), n)): d[n] = set(params[F.key(), n])
        ch = True
        while ch:
            ch = False
            for i in F.ins():
                s = set()
                if i.op == 'load':
                    x = cell(F, i.a[0][0])
                    if x in cells and i.ty == 'ptr': s.add(x)
                    b = base(F, i.a[0][0])
                    if b in mem and i.ty == 'ptr': s |= mem[b]
                elif i.op == 'getelementptr': s = d.get(i.a[1], set()) if isinstance(i.a[1], int) else set()
                elif i.op in CASTS: s = d.get(i.a[0][0], set()) if isinstance(i.a[0][0], int) else set()
                elif i.op == 'phi':
                    for v, q in i.a[0]:
                        if isinstance(v, int): s = s | d.get(v, set())
                elif i.op == 'select':
                    for v in i.a[0][1:] if isinstance(i.a[0], list) else ():
                        if isinstance(v, int): s = s | d.get(v, set())
                elif i.op == 'store' and isinstance(i.a[0][0], int) and i.a[0][0] in d:
                    b = base(F, i.a[0][1])
                    if b is not None and not d[i.a[0][0]] <= mem.get(b, set()): mem.setdefault(b, set()).update(d[i.a[0][0]]); ch = True
                if s and i.ty != 'ptr' and i.op in CASTS: s = set()
                if s and not s <= d.get(i.id, set()): d.setdefault(i.id, set()).update(s); ch = True
        return d, mem
    while todo:
        nxt = set()
        for k in todo:
            F = P.fns[k]; D[k] = derive(F); d = D[k][0]
            if not d: continue
            for i in F.ins():
                if i.op in ('call', 'invoke'):
                    for t in P.targets(F, i):
                        if t.key() not in moves: continue
                        for n, a in enumerate(i.a[1]):
                            if isinstance(a, int) and a in d and n < t.nargs:
                                s = d[a] & moves[t.key()]
                                if s and not s <= params.get((t.key(), n), set()): params.setdefault((t.key(), n), set()).update(s); nxt.add(t.key())
        todo = list(nxt)
    for k, F in sorted(P.fns.items()):
        d, mem = D[k]
        if d or mem: c.ob('routines with addresses into such an array (%s)' % variant)
        if k not in moves or not (d or mem): continue
        stale(c, P, F, d, mem, own.get(k, {}).get('#', []), moves, D, variant)

def base(F, v):
    while isinstance(v, int):
        i = F.by_id.get(v)
        if i is None: return None
        if i.op == 'alloca': return v
        if i.op == 'getelementptr': v = i.a[1]
        elif i.op in CASTS: v = i.a[0][0]
        else: return None
    return None

def slot(F, v):
    """(local array, element) an address denotes; the element is a number, a pair ('from', n) for an index that starts at n and is only incremented, or None"""
    e = F.expr(v); ix = ('c', 0)
    if e[0] == 'idx': ix = e[2]; e = e[1]
    if e[0] != 'loc': return None
    if ix[0] == 'c': return e[1], ix[1]
    if ix[0] == 'phi':
        lo = []
        for x, q in F.by_id[ix[1]].a[0]:
            y = F.expr(x)
            if y[0] == 'c': lo.append(y[1])
            elif y[0] == 'add' and ix in y[1:] and all(z == ix or z[0] == 'c' and z[1] >= 0 for z in y[1:]): pass
            else: return e[1], None
        return e[1], ('from', min(lo), F.by_id[ix[1]].bb) if lo else None
    return e[1], None

def refills(P, t, n, moves, D):
    """the routine stores new addresses in the list it gets as parameter"""
    d = D[t.key()][0]
    for i in t.ins():
        if i.op == 'store' and isinstance(i.a[0][0], int) and i.a[0][0] in d:
            v = i.a[0][1]
            while isinstance(v, int) and v >= t.nargs:
                j = t.by_id.get(v)
                if j is None: break
                if j.op == 'getelementptr': v = j.a[1]
                elif j.op in CASTS: v = j.a[0][0]
                else: break
            if v == n: return True
    return False

def stale(c, P, F, d, mem, stores, moves, D, variant):
    c.ob('routines that hold addresses while an array may move (%s)' % variant, F.name if variant == 'dbg' else None)
    mv = {(u.bb, u.pos): x for u, x in stores}
    slots = {}; where = {}; heads = {}
    for i in F.ins():
        if i.op == 'load' and i.ty == 'ptr': sl = slot(F, i.a[0][0])
        elif i.op == 'store' and isinstance(i.a[0][0], int) and i.a[0][0] in d: sl = slot(F, i.a[0][1])
        else: continue
        if sl and sl[0] in mem:
            where[i.bb, i.pos] = sl
            # a loop that refreshes the elements is taken to run at least once
            if i.op == 'store' and isinstance(sl[1], tuple): heads.setdefault(sl[1][2], []).append((sl[0], sl[1][1]))
            if i.op == 'load' and isinstance(sl[1], int): slots.setdefault(sl[0], set()).add(sl[1])
    n = len(F.blocks); IN = [None] * n; IN[0] = frozenset(); w = [0]; rep = {}
    while w:
        b = w.pop(); s = set(IN[b])
        for v, lo in heads.get(b, ()): s -= {('m', v, k) for k in slots.get(v, ()) if k >= lo}
        for i in F.blocks[b]:
            if i.op == 'phi': continue
            # uses
            us = []
            if i.op == 'load': us = [i.a[0][0]]
            elif i.op == 'store': us = [i.a[0][1]]
            elif i.op in ('call', 'invoke'): us = [a for a in i.a[1]]
            for u in us:
                if isinstance(u, int) and u in s and u in d: rep.setdefault((i.bb, i.pos), (i, u))
            x = None; fresh = set()
            if (i.bb, i.pos) in mv: x = {mv[i.bb, i.pos]}
            elif i.op in ('call', 'invoke'):
                x = set(); fresh = set()
                for t in P.targets(F, i):
                    x |= moves.get(t.key(), set())
                    for n, a in enumerate(i.a[1]):
                        bb = base(F, a)
                        if bb in mem and refills(P, t, n, moves, D): fresh.add(('m', bb))
            if x:
                s |= {v for v, y in d.items() if y & x} | {('m', v) for v, y in mem.items() if y & x} | {('m', v, k) for v, y in mem.items() if y & x for k in slots.get(v, ())}
            s -= fresh | {('m', v, k) for q, v in fresh for k in slots.get(v, ())}
            # definitions
            if i.id is not None and i.id in d:
                s.discard(i.id)
                if i.op == 'load':
                    bb = base(F, i.a[0][0])
                    sl = where.get((i.bb, i.pos))
                    if bb in mem and (('m', bb) in s if sl is None or not isinstance(sl[1], int) else ('m', bb, sl[1]) in s): s.add(i.id)
                elif i.op == 'getelementptr':
                    if isinstance(i.a[1], int) and i.a[1] in s: s.add(i.id)
                elif i.op in CASTS:
                    if isinstance(i.a[0][0], int) and i.a[0][0] in s: s.add(i.id)
                elif i.op == 'select':
                    if any(isinstance(v, int) and v in s for v in i.a[0]): s.add(i.id)
            elif i.op == 'store' and isinstance(i.a[0][0], int) and i.a[0][0] in d:
                bb = base(F, i.a[0][1])
                if bb is not None:
                    (s.add if i.a[0][0] in s else s.discard)(('m', bb))
                    sl = where.get((i.bb, i.pos))
                    for k in slots.get(bb, ()):
                        if sl is None or sl[1] is None or sl[1] == k or isinstance(sl[1], tuple) and sl[1][1] <= k: (s.add if i.a[0][0] in s else s.discard)(('m', bb, k))
        for t in F.succs[b]:
            o = set(s)
            new = {}
            for i in F.blocks[t]:
                if i.op != 'phi': break
                if i.id in d: new[i.id] = any(isinstance(v, int) and v in s for v, q in i.a[0] if q == b)
            for v, st in new.items(): (o.add if st else o.discard)(v)
            o = frozenset(o) if IN[t] is None else IN[t] | o
            if o != IN[t]: IN[t] = o; w.append(t)
    for k, (i, u) in sorted(rep.items()):
        nm = F.names.get(u); nm = nm[0] if nm else None
        arr = ', '.join(sorted(d[u]))
        c.violation('%s:%s:%s' % (F.name, arr, pp(F, F.expr(u)) if nm is None else nm), i.loc(), '%s uses an address inside %s (%s) that was computed before the array may have been moved' % (F.name, arr, nm or pp(F, F.expr(u))))
