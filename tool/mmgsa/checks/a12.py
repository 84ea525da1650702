"""Every call that allocates memory or opens a file (and every call of a routine that hands such a resource to its caller, as its
result or in an object of the caller) starts a typestate exploration of the routine it is in: the resource and its aliases
(registers, variables, members of local structures) are followed along all paths, with correlated branches followed
consistently, until it is released, closed, stored in memory the caller sees, or out of reach. A path on which the last alias
goes out of scope before the resource is released, or on which a file is neither closed nor handed on, is a violation. What the
mesh and solution structures hold is released by the Free functions, and outside this property."""
from ..own import *

def own_object(p):
    while p[0] in ('fld', 'idx'):
        if p[0] == 'idx' and p[2][0] != 'c': return False
        if p[0] == 'fld' and p[2] in ('struct.MMG5_Mesh', 'struct.MMG5_Sol', 'struct.MMG5_Info'): return False
        p = p[1]
    return p[0] == 'arg'

def outside(p):
    r, cr = root(p)
    return r[0] != 'loc' or cr

def run(c):
    for variant in ('dbg', 'ndebug'):
        P = c.prog(variant); O = Own(P); O.CAP = 60000
        todo = [(F, i, F.callee(i), None, None, 'file' if F.callee(i) in OPEN else 'mem') for k, F in sorted(P.fns.items()) if F.name not in WRAP for i in F.calls(*(ALLOC | OPEN))]
        callers = {}
        for k, F in sorted(P.fns.items()):
            if F.name in WRAP: continue
            for i in F.ins():
                if i.op in ('call', 'invoke'):
                    for t in P.targets(F, i): callers.setdefault(t.key(), []).append((F, i))
        done = set(); handed = set(); rep = set()
        while todo:
            new = {}
            for F, i, what, place, alts, kind in todo:
                isfile = kind == 'file'
                if place is None: c.ob('%s sites (%s)' % ('file opening' if isfile else 'allocation', variant), '%s %s in %s' % (i.loc(), what, F.name) if variant == 'dbg' else None)
                else: c.ob('callers that receive a %s (%s)' % ('file' if isfile else 'block', variant), '%s %s in %s' % (i.loc(), what, F.name) if variant == 'dbg' else None)
                r = O.explore(F, i, i.id, (), 'U', kind=kind) if alts is None else \
                    O.explore(F, i, i.id if place == 'ret' else None, () if place == 'ret' else (place,), alts=alts, kind=kind)
                for o in r:
                    at = None; val = 'lost'
                    if o[0] == 'cap': raise Broken('%s: too many states from %s' % (F.name, i.loc()))
                    if o[0] == 'lost': at = o[1]
                    if o[0] == 'ret' and o[2] in 'CU':
                        if not o[3] and not any(outside(p) for p in o[5]): at = F.blocks[o[6]][-1] if o[6] >= 0 and len(F.blocks[o[1].bb]) < 3 else o[1]; val = o[4]
                        else:
                            if o[3] == 'returned': new.setdefault((F.key(), 'ret', kind), set()).add((o[2], o[4]))
                            for p in o[5]:
                                if root(p)[0][0] == 'arg' and own_object(p) and not (what in REALLOC and O.regrown(F, i)): new.setdefault((F.key(), p, kind), set()).add((o[2], o[4]))
                    if at is not None:
                        w = (F.name, i.id, at.loc())
                        if w in rep: continue
                        rep.add(w)
                        c.violation('%s:%s:%s:%s' % (F.name, what, 'file' if isfile else 'memory', 'any' if val is None else val), at.loc(), '%s: the %s of %s at %s is neither %s nor handed on when it goes out of reach' % (
                            F.name, 'file' if isfile else 'memory', what, i.loc(), 'closed' if isfile else 'released'))
            todo = []
            for (k, p, kind), alts in new.items():
                vs = {v for _, v in alts}
                if None in vs and len(vs) > 1 or None in vs and p != 'ret' and P.fns[k].ret != 'void' and kind == 'mem': c.count('hand-overs whose status is not a constant (%s)' % variant); continue
                handed.add(k)
                for F, i in callers.get(k, ()):
                    q = 'ret' if p == 'ret' else subst(p, [F.expr(a) for a in i.a[1]])
                    if q is None: continue
                    if q != 'ret' and outside(q) and not own_object(q): continue
                    key = (F.key(), i.id, q, frozenset(alts))
                    if key in done: continue
                    done.add(key)
                    todo.append((F, i, F.callee(i) or 'an indirect call', q, [(st, {} if v is None else {i.id: v}) for st, v in alts], kind))
        c.count('routines that hand a resource to their caller (%s)' % variant, len(handed))
    c.rule('result of mymalloc/mycalloc/myrealloc/malloc/calloc/realloc/strdup/fopen: present -> released | handed on, on every path')
    c.floor('allocation sites (dbg)', 480); c.floor('allocation sites (ndebug)', 480); c.floor('file opening sites (dbg)', 50)
