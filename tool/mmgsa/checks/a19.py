"""Every path of every main routine is followed (statuses, local flags and local pointers tracked, helpers that scale entered). The state is what is
in normalised coordinates: the mesh and each solution handed to the scaling routine. On a return with a status that delivers a usable mesh nothing may be
left normalised (a solution whose values were released counts as gone), nothing may be normalised twice, and nothing may be un-normalised that never was
normalised.  The scaling and the unscaling routine are compared: they multiply the same quantities, with powers of the size of the box that
cancel."""
from ..absint import *
from ..build import Broken
from ..mainpaths import Walk
from ..peval import Spec
from .a05 import is_fortran_unit

SCALE, UNSCALE = 'MMG5_scaleMesh', 'MMG5_unscaleMesh'
MAINS = ['MMG3D_mmg3dlib', 'MMG3D_mmg3dls', 'MMG3D_mmg3dmov', 'MMG3D_mmg3dcheck', 'MMGS_mmgslib', 'MMGS_mmgsls', 'MMG2D_mmg2dlib', 'MMG2D_mmg2dls', 'MMG2D_mmg2dmesh', 'MMG2D_mmg2dmov']
USABLE = (0, 1)

class Scal:
    events = (SCALE, UNSCALE)
    def __init__(self, c): self.c = c; self.rel = {}
    def result(self, F, i, t, rs, q, s):
        if q == 0 and rs >= {0, 1} and 'pack' not in t.name: return (s[0], (t.name, i.loc()))
        if q and s[0]:
            gone = {self.V(i.a[1][k]) for k in self.released(t)}
            if gone: return (frozenset(('gone',) + x if x in gone else x for x in s[0]), s[1])
        return s
    def released(self, t):
        """arguments whose values every successful run of t releases"""
        if t.key() not in self.rel:
            out = []
            for k in range(t.nargs):
                bl = {i.bb for i in t.ins() if i.op == 'store' and isinstance(i.a[0][0], dict) and 'n' in i.a[0][0] and is_m(t, i) == ('arg', k)}
                if bl and Spec(t, {}).success_without(bl) is None: out.append(k)
            self.rel[t.key()] = out
        return self.rel[t.key()]
    def toks(self, F, i, V):
        out = []
        for n, x in enumerate(i.a[1]):
            v = V(x)
            if v == ('c', 0): continue
            out.append((n, v))
        return out
    def call(self, W, F, i, ts, s0, V):
        n = F.callee(i); s, why = s0; self.V = V
        if n == SCALE:
            if s: self.c.violation('%s:twice' % F.name, i.loc(), '%s normalises the mesh a second time' % F.name)
            self.c.ob('scalings followed')
            self.last = i
            return {((s | frozenset(v for _, v in self.toks(F, i, V)), why), ('c', 1)), ((s, (n, i.loc())), ('c', 0))}
        if n == UNSCALE:
            t = self.toks(F, i, V); names = set(v for _, v in t)
            self.c.ob('unscalings followed', '%s in %s' % (i.loc(), F.name))
            mesh = V(i.a[1][0])
            if mesh not in s: return {(s0, ('c', 1))}
            for k, v in t:
                if k and v not in s and v and ('gone',) + v not in s: self.c.violation('%s:never' % F.name, i.loc(), '%s undoes the normalisation of %s, which was not normalised' % (F.name, text(F, i.a[1][k])))
            rest = frozenset(x for x in s - names if x[0] != 'gone')
            return {((frozenset(('stuck',) + x if x[0] != 'stuck' else x for x in rest), why), ('c', 1))}
        return None
    def store(self, W, F, i, s, V):
        v = i.a[0][0]
        if not s[0] or not (isinstance(v, dict) and 'n' in v) or is_m(F, i) is None: return s
        t = V(F.by_id[i.a[0][1]].a[1])
        return (frozenset(('gone',) + t if x == t or x == ('stuck',) + t else x for x in s[0]), s[1])

def is_m(F, i):
    """the solution whose values the store sets"""
    a = i.a[0][1]
    if isinstance(a, int) and a >= F.nargs and F.by_id[a].op == 'getelementptr':
        e = F.expr(a)
        if e[0] == 'fld' and e[3] == 'm' and 'Sol' in str(e[2]): return e[1]

def text(F, v): return pp(F, F.expr(v))

def run(c):
    c.rule(__doc__)
    P = c.prog('ndebug')
    pub = 0
    for m in MAINS:
        F = P.need(m); C = Scal(c)
        W = Walk(P, C)
        out = W.run(F, {0: ('tok', 'arg', 0), 1: ('tok', 'arg', 1), 2: ('tok', 'arg', 2)}, (frozenset(), None))
        c.count('main routines'); c.count('path states followed', W.steps)
        for (s, why), r in sorted(out, key=str):
            c.ob('outcomes of main routines')
            if r is None or r[0] != 'c': c.violation('%s:status' % m, F.loc(), '%s can return a status that is not a constant' % m); continue
            s = {x for x in s if x[0] != 'gone' and x[-3:-1] == ('tok', 'arg')}
            if r[1] in USABLE and s:
                what = sorted({'the mesh' if x[-1] == 0 else 'a solution' for x in s})
                c.violation('%s:left:%d:%s:%s' % (m, r[1], why[0] if why else '', '+'.join(what)), why[1] if why else F.loc(), '%s can return %s with %s still in normalised coordinates%s' % (m, ('success', 'a low failure')[r[1]], ' and '.join(what), ' after the failure of ' + why[0] if why else ''))
    c.floor('unscalings followed', 60); c.floor('outcomes of main routines', 25)
    inverse(c, P)

# ---- the two routines are inverse

def power(F, e, base):
    """exponent of the box size in a product, None: other"""
    if e[0] == 'f' or e[0] == 'c': return 0
    if e[0] == 'fmul':
        r = [power(F, x, base) for x in e[1:]]
        return None if None in r else sum(r)
    if e[0] == 'fdiv':
        a, b = power(F, e[1], base), power(F, e[2], base)
        return None if a is None or b is None else a - b
    if e[0] == 'ld' and e[1][0] == 'fld' and e[1][3] == 'delta': return 1
    if e[0] == 'ld' and e[1][0] in ('arg', 'loc') or e[0] in ('arg',): return base
    if e[0] == 'phi':
        r = {power(F, F.expr(x), base) for x, p in F.by_id[e[1]].a[0] if F.expr(x) != e}
        return r.pop() if len(r) == 1 else None
    return None

def mults(P, F, base):
    """quantities multiplied by a power of the box size, by this routine and those it calls: (struct.field, how) -> set of (exponent, loc)"""
    out = {}; seen = set(); w = [F]
    while w:
        G = w.pop()
        if G.key() in seen: continue
        seen.add(G.key())
        for i in G.ins():
            if i.op in ('call', 'invoke'):
                f = G.callee(i)
                w += [t for t in P.targets(G, i) if '/scalem.c' in t.file and 'boundingBox' not in t.name and 'Truncature' not in t.name]
            if i.op != 'store' or i.a[-1] != 'double': continue
            a = G.expr(i.a[0][1]); v = G.expr(i.a[0][0])
            x = a
            while x[0] == 'idx': x = x[1]
            if x[0] == 'ld' and x[1][0] == 'fld': x = x[1]
            if x[0] != 'fld': continue
            p = factor(G, v, a, base)
            if p is None: continue
            name = '%s.%s' % (str(x[2]).replace('struct.', ''), x[3])
            out.setdefault(name, set()).add((p, i.loc()))
    return out

def factor(G, v, a, base):
    """v = old value of a times a power of the box size (plus / minus something not scaled)"""
    if v[0] in ('fadd', 'fsub'):
        r = [factor(G, x, a, base) for x in v[1:]]
        r = [x for x in r if x is not None]
        return r[0] if r else None
    if v == ('ld', a) or v[0] == 'ld' and v[1] == a: return 0
    if v[0] == 'fmul':
        for n, x in enumerate(v[1:]):
            k = factor(G, x, a, base)
            if k is not None:
                r = [power(G, y, base) for m, y in enumerate(v[1:]) if m != n]
                return None if None in r else k + sum(r)
    return None

def inverse(c, P):
    up = mults(P, P.need(SCALE), -1); down = mults(P, P.need(UNSCALE), 1)
    S, U = P.need(SCALE), P.need(UNSCALE)
    for n in sorted(set(up) | set(down)):
        a = sorted({p for p, l in up.get(n, ())}); b = sorted({-p for p, l in down.get(n, ())})
        c.ob('quantities normalised', '%s by the power %s of the size' % (n, ', '.join(map(str, a))))
        if a != b:
            l = sorted(up.get(n) or down.get(n))[0][1]
            c.violation('inverse:%s' % n, l, '%s is normalised with the powers %s of the size of the box, and un-normalised as if with %s' % (n, a or 'none', b or 'none'))
        if any(p > 0 for p in a if n.endswith('.c')): c.violation('inverse:%s' % n, S.loc(), '%s is not divided by the size of the box' % n)
    c.floor('quantities normalised', 10)
