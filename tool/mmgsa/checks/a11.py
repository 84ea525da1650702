"""Every call that allocates memory or opens a file (and every call of a routine that hands on such a result untested) starts a
typestate exploration of the routine it is in: the result and its aliases (registers, variables, structure members it is stored
in) are followed along all paths on which it has not been compared with null or was found to be null. An access through the
resource, or handing it to a routine that accesses it before testing it, is a violation; so is leaving an untested result in
memory the caller sees. Routines
that may return with the resource missing in their result or in an object of the caller (hash tables, lists) are followed into their callers, with the statuses they return in that case. Correlated branches are followed consistently."""
from ..own import *

def own_object(p):
    """a place in an object of the caller other than the mesh and the solutions: the caller must look at the status"""
    while p[0] in ('fld', 'idx'):
        if p[0] == 'fld' and p[2] in ('struct.MMG5_Mesh', 'struct.MMG5_Sol', 'struct.MMG5_Info'): return False
        p = p[1]
    return p[0] == 'arg'

def run(c):
    for variant in ('dbg', 'ndebug'):
        P = c.prog(variant); O = Own(P, null=True)
        todo = [(F, i, F.callee(i), None, None) for k, F in sorted(P.fns.items()) if F.name not in WRAP for i in F.calls(*(ALLOC | OPEN))]
        callers = {}
        for k, F in sorted(P.fns.items()):
            if F.name in WRAP: continue
            for i in F.ins():
                if i.op in ('call', 'invoke'):
                    for t in P.targets(F, i): callers.setdefault(t.key(), []).append((F, i))
        done = set(); fresh = set()
        while todo:
            new = {}
            for F, i, what, place, alts in todo:
                isfile = what in OPEN
                if place is None: c.ob('%s sites (%s)' % ('file opening' if isfile else 'allocation', variant), '%s %s in %s' % (i.loc(), what, F.name) if variant == 'dbg' else None)
                else: c.ob('callers of routines that may leave a resource missing (%s)' % variant, '%s %s in %s' % (i.loc(), what, F.name) if variant == 'dbg' else None)
                where = '%s:%s:' % (F.name, what)
                r = O.explore(F, i, i.id, (), 'U', kind='file' if isfile else 'mem') if alts is None else \
                    O.explore(F, i, i.id if place == 'ret' else None, () if place == 'ret' else (place,), alts=alts)
                for o in r:
                    if o[0] == 'deref':
                        c.violation(where + 'used', o[1].loc(), '%s: the result of %s at %s is used %s' % (F.name, what, i.loc(),
                                    'although it is null on this path' if o[2] == 'N' else 'before it is tested'))
                    elif o[0] == 'cap' and place is None: raise Broken('%s: too many states from %s' % (F.name, i.loc()))
                    elif o[0] == 'ret':
                        if o[2] == 'U' and o[5]:
                            c.violation(where + 'untested', i.loc(), '%s: the result of %s is left in memory untested when the routine returns at %s' % (F.name, what, o[1].loc()))
                        if o[3] == 'returned': new.setdefault((F.key(), 'ret'), set()).add((o[2], o[4]))
                        for p in o[5]:
                            if root(p)[0][0] == 'arg' and own_object(p): new.setdefault((F.key(), p), set()).add((o[2], o[4]))
            todo = []
            for (k, p), alts in new.items():
                fresh.add(k)
                for F, i in callers.get(k, ()):
                    q = 'ret' if p == 'ret' else subst(p, [F.expr(a) for a in i.a[1]])
                    if q is None: continue
                    key = (F.key(), i.id, q, frozenset(alts))
                    if key in done: continue
                    done.add(key)
                    todo.append((F, i, F.callee(i) or 'an indirect call', q, [(st, {} if v is None else {i.id: v}) for st, v in alts]))
        c.count('routines that may leave a resource missing (%s)' % variant, len(fresh))
    c.rule('result of mymalloc/mycalloc/myrealloc/malloc/calloc/realloc/strdup/fopen: untested -> null | present; access only when present')
    c.floor('allocation sites (dbg)', 480); c.floor('allocation sites (ndebug)', 480); c.floor('file opening sites (dbg)', 50)
