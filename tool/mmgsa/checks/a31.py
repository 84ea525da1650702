"""Every release of a block and every closing of a file starts a typestate exploration: the released pointer, the registers that hold
it and the place it was loaded from are followed along all paths until the place is given another value or goes out of reach.
An access through the pointer, a second release, or handing it to a routine that accesses or releases it, is a violation. A routine that
returns while an object of its caller still holds the released pointer is followed into its callers, with the status it returns."""
import glob, os, re
from ..own import *
from ..build import REPO

def public():
    out = set()
    for f in glob.glob(os.path.join(REPO, 'src', '*', 'libmmg*.h')):
        out |= set(re.findall(r'\b(MMG\w*)\s*\(', open(f, errors='replace').read()))
    return out

def run(c):
    api = public()
    for variant in ('dbg', 'ndebug'):
        P = c.prog(variant); O = Own(P, after=True); O.CAP = 60000
        REL = FREE | CLOSE | REALLOC
        todo = []; callers = {}
        for k, F in sorted(P.fns.items()):
            if F.name in WRAP: continue
            for i in F.ins():
                if i.op in ('call', 'invoke'):
                    for t in P.targets(F, i): callers.setdefault(t.key(), []).append((F, i))
            for i in F.calls(*REL):
                v = i.a[1][0]
                if not isinstance(v, int): continue
                e = F.expr(v)
                todo.append((F, i, F.callee(i), [v], [e[1]] if e[0] == 'ld' else [], None))
        done = set(); handed = set()
        while todo:
            new = {}
            for F, i, what, regs, pls, alts in todo:
                argval = {k for k in regs if isinstance(k, int) and k < F.nargs}
                c.ob(('releases (%s)' if alts is None else 'callers left with a released pointer (%s)') % variant, '%s %s in %s' % (i.loc(), what, F.name) if variant == 'dbg' else None)
                O.hold = frozenset(argval)
                r = O.explore(F, i, regs[0] if regs else None, tuple(pls), alts=alts or [('R', {i.id: 'nz'} if what in REALLOC else {})])
                for o in r:
                    if o[0] == 'cap': raise Broken('%s: too many states from %s' % (F.name, i.loc()))
                    if o[0] == 'deref':
                        c.violation('%s:%s:%s' % (F.name, what, 'again' if o[2] == 'again' else 'used'), o[1].loc(), '%s: what %s released at %s is %s' % (F.name, what, i.loc(), 'released again' if o[2] == 'again' else 'used'))
                    if o[0] == 'ret':
                        for k in argval: new.setdefault((F.key(), ('value', k)), set()).add((o[2], o[4]))
                        if o[3] == 'returned': new.setdefault((F.key(), 'ret'), set()).add((o[2], o[4]))
                        for p in o[5]:
                            if root(p)[0][0] == 'arg': new.setdefault((F.key(), p), set()).add((o[2], o[4]))
            todo = []
            for (k, p), alts in new.items():
                handed.add((k, p))
                for F, i in callers.get(k, ()):
                    if p[0] == 'value':
                        v = i.a[1][p[1]] if p[1] < len(i.a[1]) else None
                        key = (F.key(), i.id, p, frozenset(alts))
                        if not isinstance(v, int) or key in done: continue
                        done.add(key); e = F.expr(v)
                        todo.append((F, i, F.callee(i) or 'an indirect call', [v], [e[1]] if e[0] == 'ld' else [], [(st, {} if x is None else {i.id: x}) for st, x in alts]))
                        continue
                    q = 'ret' if p == 'ret' else subst(p, [F.expr(a) for a in i.a[1]])
                    if q is None: continue
                    key = (F.key(), i.id, q, frozenset(alts))
                    if key in done: continue
                    done.add(key)
                    todo.append((F, i, F.callee(i) or 'an indirect call', [i.id] if q == 'ret' else [], [q] if q != 'ret' else [], [(st, {} if v is None else {i.id: v}) for st, v in alts]))
        for k, p in sorted(handed, key=str):
            if p != 'ret' and p[0] != 'value' and P.fns[k].name in api:
                c.violation('%s:%s:left' % (P.fns[k].name, pp(P.fns[k], p)), P.fns[k].loc(), '%s can return with %s released and neither cleared nor given another block: the structure of its caller still points to it' % (P.fns[k].name, pp(P.fns[k], p)))
        c.count('routines that leave a released pointer to their caller (%s)' % variant, len({k for k, p in handed}))
        c.count('public routines (%s)' % variant, sum(F.name in api for F in P.fns.values()))
        c.floor('releases (%s)' % variant, 1200); c.floor('public routines (%s)' % variant, 300)
    c.rule('a public routine returns with no structure of its caller still pointing to a block it released')
    c.rule('block or file: released -> (forgotten | overwritten); never accessed or released again')
