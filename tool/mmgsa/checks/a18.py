"""(1) Each operator-selection routine is evaluated by conditional constant propagation for every kind of metric (scalar; tensor; tensor to be
computed from sizes; none): at its end every operator pointer it manages holds, in every case, an operator of the kind of the metric and of the
library, and not the operator meant for another pointer. (2) The routine that sets the metric-independent operators holds operators of its own library
(same dimension).  (3) In every public routine, on every path, the operators are chosen before they are used (interprocedural must-assign analysis).
(4) The metric for which a main routine chooses its operators is the one it hands to the phases that follow."""
import re
from ..absint import *
from ..build import Broken
from ..sccp import Inter
from . import a08
from .a05 import is_fortran_unit

LIBS = {'MMG3D': ('mmg3d', 6), 'MMGS': ('mmgs', 6), 'MMG2D': ('mmg2d', 3)}

def cases(T):
    ld = lambda **k: k
    yield 'no metric structure', dict(ani=0, met=0), 'iso'
    for opt in (0, 1): yield 'scalar metric (optim %d)' % opt, dict(ani=0, met=1, size=1, optim=opt), 'iso'
    yield 'scalar metric not given', dict(ani=0, met=1, size=1, m=0, optim=0, hsiz=0.), 'iso'
    for a in (0, 1): yield 'tensor metric (ani %d)' % a, dict(ani=a, met=1, size=T, m=1), 'ani'
    yield 'tensor metric asked for, from edge lengths', dict(ani=1, met=1, size=1, m=0, optim=1), 'ani'
    yield 'tensor metric asked for, constant size', dict(ani=1, met=1, size=1, m=0, optim=0, hsiz=1.), 'ani'
    yield 'tensor metric asked for, none given', dict(ani=1, met=1, size=1, m=0, optim=0, hsiz=0.), None

def table(P, F, fix):
    """operator pointer -> the functions it may hold at the end (None in the set: not set)"""
    def load(G, i):
        e = G.expr(i.a[0][0])
        if e[0] == 'fld':
            s = str(e[2])
            if e[3] == 'ani' and 'ani' in fix: return frozenset([fix['ani'], 1] if fix['ani'] == 0 and fix.get('size', 1) > 1 else [fix['ani']])
            if e[3] in ('optim', 'hsiz') and e[3] in fix: return frozenset([fix[e[3]]])
            if e[3] in ('size', 'm') and 'Sol' in s and e[3] in fix: return frozenset([fix[e[3]]])
        return None
    memo = {}
    def run(G, args):
        I = Inter(P, load)
        from ..sccp import Sccp
        S = Sccp(G, load, I.rets, args)
        IN = {0: {}}; w = [0]; OUT = None
        def join(a, b):
            if a is None: return dict(b)
            r = {}
            for k in set(a) | set(b): r[k] = a.get(k, frozenset([None])) | b.get(k, frozenset([None]))
            return r
        while w:
            b = w.pop(); s = dict(IN[b])
            for i in G.blocks[b]:
                if i.op == 'store' and isinstance(i.a[0][1], dict) and 'g' in i.a[0][1]:
                    vs = fnvals(G, S, i.a[0][0], set())
                    if vs: s[i.a[0][1]['g']] = frozenset(vs)
                elif i.op == 'call':
                    t = P.targets(G, i)
                    if len(t) == 1 and isinstance(i.a[0], dict) and t[0].key() != G.key():
                        sub = run(t[0], {n: S.val(x) for n, x in enumerate(i.a[1][:t[0].nargs])})
                        for k, v in (sub or {}).items(): s[k] = frozenset(x for y in v for x in (s.get(k, frozenset([None])) if y is None else [y]))
                elif i.op == 'ret': OUT = join(OUT, s)
            for n in G.succs[b]:
                if (b, n) not in S.edges: continue
                y = join(IN.get(n), s)
                if y != IN.get(n): IN[n] = y; w.append(n)
        return OUT
    return run(F, {0: frozenset([1]), 1: frozenset([fix['met']])} if fix else {})

def fnvals(G, S, v, seen):
    if isinstance(v, dict): return [v['fn']] if 'fn' in v else []
    if v in seen or v < G.nargs: return []
    seen.add(v); i = G.by_id[v]
    if i.op == 'phi': return [x for y, p in i.a[0] if (p, i.bb) in S.edges for x in fnvals(G, S, y, seen)]
    if i.op == 'select':
        c = S.val(i.a[0][0]); out = []
        if c is None or 1 in c: out += fnvals(G, S, i.a[0][1], seen)
        if c is None or 0 in c: out += fnvals(G, S, i.a[0][2], seen)
        return out
    return []

def stem(n): return re.sub(r'^(MMG5|MMG3D|MMGS|MMG2D)_', '', re.sub(r'_(iso|ani)$', '', n))
def kind(n): return 'iso' if re.search(r'iso(_|$)', n) else 'ani' if re.search(r'ani(_|$)', n) else None

def run(c):
    c.rule(__doc__)
    P = c.prog('ndebug')
    mains = {F.unit for F in P.fns.values() if F.name == 'main'}
    dep = set()
    for lib, (d, T) in sorted(LIBS.items()):
        F = P.need(lib + '_setfunc')
        tabs = [(n, table(P, F, fix), want) for n, fix, want in cases(T)]
        ptrs = set().union(*[set(t) for _, t, _ in tabs])
        dep |= ptrs
        cand = {p: set().union(*[t.get(p, set()) for _, t, _ in tabs]) - {None} for p in ptrs}
        c.count('metric-dependent operators', len(ptrs)); stems = {stem(p) for p in ptrs}
        for n, t, want in tabs:
            for p in sorted(ptrs):
                vs = t.get(p, frozenset([None]))
                c.ob('operator x metric kind', '%s: %s with %s -> %s' % (lib, p, n, ', '.join(str(x) for x in sorted(vs, key=str))))
                key = '%s:%s' % (lib, p)
                if None in vs: c.violation(key, F.loc(), '%s_setfunc leaves %s as it was with %s' % (lib, p, n)); continue
                for x in sorted(vs):
                    G = P.fn(x)
                    if G is None: raise Broken('no function ' + x)
                    k = kind(x)
                    if want and k and k != want: c.violation(key, F.loc(), '%s_setfunc selects %s for %s with %s' % (lib, x, p, n))
                    home(c, key, lib, d, G, p, F)
                    if stem(x) != stem(p) and stem(x) in stems and not stem(p).startswith(stem(x)): c.violation(key, F.loc(), '%s_setfunc gives %s the operator of %s (%s)' % (lib, p, stem(x), x))
        for p in ptrs:
            if {kind(x) for x in cand[p]} >= {'iso', 'ani'}: c.count('operators with both kinds')
        F = P.need(lib + '_Set_commonFunc')
        t = table(P, F, {})
        for p, vs in sorted(t.items()):
            c.ob('metric-independent operators', '%s: %s -> %s' % (lib, p, ', '.join(map(str, vs))))
            for x in vs:
                key = '%s:%s' % (lib, p)
                if x is None: c.violation(key, F.loc(), '%s_Set_commonFunc leaves %s as it was' % (lib, p)); continue
                home(c, key, lib, d, P.fn(x), p, F)
                oth = [q for q in t if q != p and stem(x).lower().replace(d, '') == stem(q).lower()]
                if oth: c.violation(key, F.loc(), '%s_Set_commonFunc gives %s the operator of %s (%s)' % (lib, p, oth[0], x))
    c.floor('operator x metric kind', 300); c.floor('metric-independent operators', 18); c.floor('operators with both kinds', 30)
    ops = {p['name'] for p in P.globals.values() if p['name'] in P.fptr and not p['name'].startswith('.')}
    c.count('operator pointers', len(ops)); c.floor('operator pointers', 40)
    a08.renewal(c, P, ops, 'order', a08.headers(), mains)
    handed(c, P, mains, dep)

def strides(G):
    """the constants by which entity numbers are multiplied to address the metric"""
    out = set()
    for i in G.ins():
        if i.op != 'getelementptr': continue
        e = G.expr(i.id)
        if e[0] == 'idx' and e[1][0] == 'ld' and e[1][1][0] == 'fld' and e[1][1][3] == 'm' and 'Sol' in str(e[1][1][2]):
            for t in (e[2][1:] if e[2][0] == 'add' else [e[2]]):
                if t[0] == 'mul': out |= {x[1] for x in t[1:] if x[0] == 'c'}
    return out

def home(c, key, lib, d, G, p, F):
    st = strides(G); c.count('operators addressing the metric by a fixed stride', bool(st))
    if (6 if d == 'mmg2d' else 3) in st: c.violation(key, F.loc(), '%s: the operator %s for %s addresses the metric of the other dimension' % (F.name, G.name, p)); return
    m = re.search(r'src/(mmg3d|mmgs|mmg2d)/', G.file)
    if m and m.group(1) != d: c.violation(key, F.loc(), '%s: the operator %s for %s belongs to %s' % (F.name, G.name, p, m.group(1))); return
    q = re.search(r'_?([23])[dD](?![a-z])|^MMG5_([23])d', G.name.split('_', 1)[1])
    if q:
        dim = q.group(1) or q.group(2)
        if (dim == '2') != (d == 'mmg2d'): c.violation(key, F.loc(), '%s: the operator %s for %s is that of dimension %s' % (F.name, G.name, p, dim))

def leaves(F, e, seen=None):
    seen = set() if seen is None else seen
    if e[0] != 'phi': return {e}
    if e in seen: return set()
    seen.add(e); out = set()
    for x, p in F.by_id[e[1]].a[0]: out |= leaves(F, F.expr(x), seen)
    return out

def handed(c, P, mains, ops):
    users = {F.key() for F in P.fns.values() for i in F.ins() if i.op == 'load' and isinstance(i.a[0][0], dict) and i.a[0][0].get('g') in ops}
    cg = P.cg; rev = {}
    for k in P.fns:
        for t in cg.get(k, ()): rev.setdefault(t if isinstance(t, str) else t.key(), set()).add(k)
    w = list(users)
    while w:
        for q in rev.get(w.pop(), ()):
            if q not in users: users.add(q); w.append(q)
    c.count('routines that use operators', len(users)); c.floor('routines that use operators', 100)
    for F in P.fns.values():
        if F.unit in mains or is_fortran_unit(F.unit): continue
        sf = [i for i in F.ins() if i.op == 'call' and (F.callee(i) or '').endswith('_setfunc')]
        if not sf or F.name.endswith('_setfunc'): continue
        met = set().union(*[leaves(F, F.expr(i.a[1][1])) for i in sf])
        c.ob('routines that choose operators', F.name)
        n = 0
        for i in F.ins():
            if i.op != 'call' or i in sf or not any(F.idominates(j, i) for j in sf): continue
            for t in P.targets(F, i):
                if t.key() not in users: continue
                for k, (nm, ty) in enumerate(zip(argnames(t), t.argdi)):
                    if nm == 'met' and k < len(i.a[1]):
                        e = F.expr(i.a[1][k])
                        n += 1
                        if not leaves(F, e) & met and e != ('null',): c.violation('%s:%s' % (F.name, t.name), i.loc(), '%s chose its operators for %s but hands %s to %s' % (F.name, ', '.join(pp(F, x) for x in met), pp(F, e), t.name))
        c.count('metrics handed on', n)
    c.floor('routines that choose operators', 9); c.floor('metrics handed on', 25)

def argnames(F): return [(F.names.get(k) or [''])[0] for k in range(F.nargs)]
