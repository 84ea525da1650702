"""Every store of every setter and getter of the three libraries is resolved, through helpers and whatever the loop style,
to 'place = value if condition' in canonical form, and compared with the layout table below: entity, component, reference,
mark, solution component, position (given, running or array rank) and optional outputs. A required store must be there,
unconditional but for optional arguments; no store to an entity, a solution value or an output argument may be left over."""
from ..canon import *

LIBS = ('MMG3D', 'MMGS', 'MMG2D')
MASK = dict(corner=32, required=4, ridge=2, parallel=8192)
COUNT = dict(point='np', tetra='ne', prism='nprism', tria='nt', quadra='nquad', edge='na')
ITER = dict(point='npi', tetra='nei', prism='npri', tria='nti', quadra='nqi', edge='nai')

class X:
    """expected store"""
    def __init__(s, place, val, must=(), rng='', opt=None, alts=()):
        s.place, s.val, s.must, s.rng, s.opt, s.alts = place, val, tuple(must), rng, opt, tuple(alts)

class Spec:
    def __init__(s, lib, name):
        s.lib, s.name = lib, name; s.exp = []; s.zero = []; s.flags = []; s.extra = []; s.iter = None; s.sub = None; s.used = []; s.count = None
    def e(s, *a, **k): s.exp.append(X(*a, **k))

def fields(arr, n, edge=False):
    if arr == 'edge': return ['a', 'b']
    return ['%s[%d]' % ('c' if arr == 'point' else 'v', j) for j in range(n)]

def specs():
    out = []
    def new(lib, name):
        s = Spec(lib, name); out.append(s); return s
    for lib in LIBS:
        d2 = lib == 'MMG2D'
        ents = [('vertex', 'vertices', 'point', 2 if d2 else 3), ('triangle', 'triangles', 'tria', 3), ('edge', 'edges', 'edge', 2)]
        if lib != 'MMGS': ents.append(('quadrilateral', 'quadrilaterals', 'quadra', 4))
        if lib == 'MMG3D': ents += [('tetrahedron', 'tetrahedra', 'tetra', 4), ('prism', 'prisms', 'prism', 6)]
        for one, many, arr, n in ents:
            fl = fields(arr, n)
            # marks delivered by the getters, in order
            marks = {'point': ['corner', 'required'], 'edge': ['ridge', 'required']}.get(arr, ['required'])
            ntag = {'tria': 3, 'quadra': 4}.get(arr, 0)
            def tags(at, m): return ['(and(%d,%s.tag%s) ne 0)' % (MASK[m], at, '[%d]' % j if ntag else '') for j in range(ntag or 1)]
            # one setter
            s = new(lib, 'Set_' + one); pos = 'a%d' % (n + 2); at = 'a0.%s[%s]' % (arr, pos)
            for j, f in enumerate(fl): s.e('%s.%s' % (at, f), 'a%d' % (1 + j))
            rv = 'a%d' % (n + 1)
            s.e(at + '.ref', 'abs(%s)' % rv if arr == 'tetra' else rv)
            # many setter
            m = new(lib, 'Set_' + many); am = 'a0.%s[T+1]' % arr; rg = 'T<a0.%s' % COUNT[arr]
            def comp(a, j): return '%s[%s]' % (a, ('%d*T' % n if n > 1 else 'T') + ('+%d' % j if j else ''))
            for j, f in enumerate(fl): m.e('%s.%s' % (am, f), comp('a1', j), rng=rg)
            m.e(am + '.ref', 'abs(a2[T])' if arr == 'tetra' else 'a2[T]', rng=rg, opt='a2')
            for q, b in ((s, at), (m, am)):
                if arr == 'tetra': q.extra += [(b + '.v[2]', b + '.v[3]', 'lt'), (b + '.v[3]', b + '.v[2]', 'lt')]
                if arr == 'tria' and d2: q.extra += [(b + '.v[1]', b + '.v[2]', 'lt'), (b + '.v[2]', b + '.v[1]', 'lt')]; q.extra += [('%s.edg[%d]' % (b, j), '0', '') for j in range(3)]
                if arr == 'point': q.extra += [(b + '.tag', None, ''), (b + '.flag', '0', ''), (b + '.tmp', '0', '')]
                if arr == 'edge': q.extra += [(b + '.tag', 'or(1,%s.tag)' % b, ''), (b + '.tag', 'and(17,%s.tag)' % b, '')]
                # vertices of a volume element (2D, surface: triangle) become used
                if arr in ('tetra', 'prism') or arr == 'tria' and lib != 'MMG3D':
                    for j, f in enumerate(fl): q.used.append(['a0.point[%s.%s].tag' % (b, f), 'a0.point[%s].tag' % ('a%d' % (1 + j) if q is s else comp('a1', j))])
            # getters
            g = new(lib, 'Get_' + one); g.iter = 'a0.' + ITER[arr]; g.count = 'a0.' + COUNT[arr]; ats = [(g, 'a0.%s[%s]' % (arr, g.iter), 'a%d[0]', '')]
            gm = new(lib, 'Get_' + many); ats.append((gm, am, None, rg))
            if one == 'vertex': gi = new(lib, 'GetByIdx_vertex'); ats.append((gi, 'a0.point[a%d]' % (n + 4), 'a%d[0]', ''))
            for q, b, o, r in ats:
                for j, f in enumerate(fl): q.e(o % (1 + j) if o else comp('a1', j), '%s.%s' % (b, f), rng=r)
                k0 = n + 1 if o else 2
                q.e(o % k0 if o else 'a2[T]', b + '.ref', rng=r, opt='a%d' % k0)
                for i, mk_ in enumerate(marks):
                    k = k0 + 1 + i
                    pl = o % k if o else 'a%d[T]' % k
                    q.flags.append((pl, tuple(tags(b, mk_)), r, 'a%d' % k))
        # marks
        def mark(fn, arr, mask, ntag, many=False):
            for pre in ('Set_', 'Unset_'):
                s = new(lib, pre + fn)
                at = 'a0.%s[%s].tag' % (arr, 'a1[T]' if many else 'a1'); r = 'T<a2' if many else ''
                for j in range(ntag or 1):
                    p = at + ('[%d]' % j if ntag else '')
                    s.e(p, 'or(%d,%s)' % (mask, p) if pre == 'Set_' else 'and(%d,%s)' % (-mask - 1, p), rng=r)
                if fn == 'requiredVertex' and pre == 'Set_': s.e(at, 'and(-32769,%s)' % at)
        mark('corner', 'point', 32, 0); mark('requiredVertex', 'point', 4, 0); mark('requiredTriangle', 'tria', 4, 3); mark('requiredEdge', 'edge', 4, 0)
        if not d2: mark('ridge', 'edge', 2, 0)
        if lib == 'MMG3D':
            mark('requiredTetrahedron', 'tetra', 4, 0); mark('requiredTetrahedra', 'tetra', 4, 0, True); mark('requiredTriangles', 'tria', 4, 3, True)
            mark('parallelTriangle', 'tria', 8192, 3); mark('parallelTriangles', 'tria', 8192, 3, True)
        if d2:
            s = new(lib, 'Set_parallelEdge')
            for p, alt in (('a0.edge[a1].tag', ()), ('a0.point[a0.edge[a1].a].tag', ()), ('a0.point[a0.edge[a1].b].tag', ())): s.e(p, 'or(8192,%s)' % p)
        # normals
        if not d2:
            s = new(lib, 'Set_normalAtVertex'); g = new(lib, 'Get_normalAtVertex')
            for j in range(3):
                s.e('a0.point[a1].n[%d]' % j, 'a%d' % (2 + j)); g.e('a%d[0]' % (2 + j), 'a0.point[a1].n[%d]' % j)
        # solutions
        sz = dict(scalar=1, vector=2 if d2 else 3, tensor=3 if d2 else 6)
        def mult(n, x): return x if n == 1 else '%d*%s' % (n, x)
        def plus(t, k): return t + ('+%d' % k if k else '')
        for kind, n in sz.items():
            s = new(lib, 'Set_%sSol' % kind); g = new(lib, 'Get_%sSol' % kind); sm = new(lib, 'Set_%sSols' % kind); gm = new(lib, 'Get_%sSols' % kind)
            g.iter = 'a0.npi'; g.count = 'a0.np'
            for q in (s, g, sm, gm): q.sub = n
            for j in range(n):
                s.e('a0.m[%s]' % plus(mult(n, 'a%d' % (n + 1)), j), 'a%d' % (1 + j))
                g.e('a%d[0]' % (1 + j), 'a0.m[%s]' % plus(mult(n, 'a0.npi'), j))
                sm.e('a0.m[%s]' % plus(mult(n, 'T'), n + j), 'a1[%s]' % plus(mult(n, 'T'), j), rng='T<a0.np')
                gm.e('a1[%s]' % plus(mult(n, 'T'), j), 'a0.m[%s]' % plus(mult(n, 'T'), n + j), rng='T<a0.np')
        b = 'a0[a1-1]'
        s = new(lib, 'Set_ithSol_inSolsAtVertices'); g = new(lib, 'Get_ithSol_inSolsAtVertices'); sm = new(lib, 'Set_ithSols_inSolsAtVertices'); gm = new(lib, 'Get_ithSols_inSolsAtVertices')
        g.iter = b + '.npi'; g.count = b + '.np'
        for q in (s, g, sm, gm): q.sub = 'case'
        for kind, ty in (('scalar', 1), ('vector', 2), ('tensor', 3)):
            n = sz[kind]; w = ['(%s.type eq %d)' % (b, ty)]
            for j in range(n):
                s.e('%s.m[%s]' % (b, plus(mult(n, 'a3'), j)), 'a2[%d]' % j, w)
                g.e('a2[%d]' % j, '%s.m[%s]' % (b, plus(mult(n, b + '.npi'), j)), w)
                sm.e('%s.m[%s]' % (b, plus(mult(n, 'T'), n + j)), 'a2[%s]' % plus(mult(n, 'T'), j), w, rng='T<%s.np' % b)
                gm.e('a2[%s]' % plus(mult(n, 'T'), j), '%s.m[%s]' % (b, plus(mult(n, 'T'), n + j)), w, rng='T<%s.np' % b)
        # sizes
        order = dict(MMG3D=['np', 'ne', 'nprism', 'nt', 'nquad', 'na'], MMGS=['np', 'nt', 'na'], MMG2D=['np', 'nt', 'nquad', 'na'])[lib]
        s = new(lib, 'Set_meshSize'); g = new(lib, 'Get_meshSize')
        for k, f in enumerate(order):
            s.e('a0.' + f, 'a%d' % (k + 1))
            if not (d2 and f == 'na'): g.e('a%d[0]' % (k + 1), 'a0.' + f, opt='a%d' % (k + 1))
        s.only = True
        if d2: g.skip = 'a4['
        g = new(lib, 'Get_solSize'); g.e('a3[0]', 'a1.np', opt='a3'); g.skip = ('a2[', 'a4[')
        # boundary-less entities
        if lib == 'MMG3D':
            g = new(lib, 'Get_nonBdyTriangle'); at = 'a0.tria[a0.nt+a5]'
            for j in range(3): g.e('a%d[0]' % (1 + j), at + '.v[%d]' % j)
            g.e('a4[0]', at + '.ref', opt='a4')
        else:
            g = new(lib, 'Get_nonBdyEdge'); at = 'a0.edge[a0.%s+a4]' % ('namax' if d2 else 'na')
            g.e('a1[0]', at + '.a'); g.e('a2[0]', at + '.b'); g.e('a3[0]', at + '.ref', opt='a3')
    return out

TRACK = re.compile(r'^(a0\.(point|tetra|prism|tria|quadra|edge|xpoint|xtetra|xtria|xprism)\[|a0(\[[^]]*\])?\.m\[|a\d+\[[^.]*\]$)')
NUL = re.compile(r'^and\(-32769,')

def run(c):
    P = c.prog('ndebug')
    c.rule(__doc__)
    for s in specs():
        one(c, P, s)
    c.floor('setters and getters', 158); c.floor('stores compared', 553); c.floor('used vertices marked', 32); c.floor('running positions', 25); c.floor('marks delivered', 30)

def sizesub(n, lib=None):
    def f(x):
        if x[0] == 'ld' and x[1][0] == 'fld' and x[1][3] == 'size': return mk('c', n)
        return None
    return f

def benign(g, optargs):
    """conditions that may stand before a store: an optional argument is present, an entity count"""
    if re.match(r'^!?\((a\d+) (ne|eq) NULL\)$', g): return g.startswith('(') and ' ne ' in g and g[1:g.index(' ')] in optargs
    return bool(re.match(r'^!?\(a0(\[a1-1\])?\.(np|nt|ne|na|nprism|nquad|npmax|ntmax|nemax|namax|dim|ver|npi|nti|nei|nai|npri|nqi) (eq|ne|slt|sle|sgt|sge) -?[\w.\[\]-]+\)$', g))

def one(c, P, s):
    fn = '%s_%s' % (s.lib, s.name)
    F = P.need(fn)
    c.ob('setters and getters', fn)
    if s.sub == 'case':
        # the size is the one of the kind of solution
        size = {1: 1, 2: 2 if s.lib == 'MMG2D' else 3, 3: 3 if s.lib == 'MMG2D' else 6}
        st = []
        for ty in (1, 2, 3):
            st += [x for x in canonical(P, F, sub=sizesub(size[ty])) if '.type eq %d)' % ty in ' '.join(x[2]) or ty == 1 and '.type eq' not in ' '.join(x[2])]
    else: st = canonical(P, F, sub=sizesub(s.sub) if s.sub else None)
    key = fn
    it = s.iter
    left = []
    opts = {x.opt for x in s.exp if x.opt} | {f[3] for f in s.flags}
    match = {}
    flagst = {}
    for pl, va, gs, rg, ins in st:
        rg = ','.join(rg)
        if it:
            # 'k = ++it' and 'it++; k = it' read the same position
            pl, va = norm_iter(pl, it), norm_iter(va, it); gs = tuple(norm_iter(g, it) for g in gs)
        f = [x for x in s.flags if x[0] == pl and x[2] == rg]
        if f and va in ('0', '1'): flagst.setdefault(f[0], []).append((va, gs, ins)); continue
        e = [x for x in s.exp if x.place == pl and x.val == va and x.rng == rg and all(g in gs for g in x.must)]
        if e: match.setdefault(e[0], []).append((gs, ins)); continue
        left.append((pl, va, gs, rg, ins))
    for x in s.exp:
        c.ob('stores compared', '%s: %s = %s' % (fn, x.place, x.val))
        ms = match.get(x)
        if not ms:
            near = [l for l in left if l[0] == x.place]
            at = near[0][4].ins.loc() if near else F.loc()
            c.violation('%s:%s' % (key, x.place), at, '%s: expected %s = %s%s; %s' % (fn, x.place, x.val, ' for ' + x.rng if x.rng else '',
                        'found %s' % '; '.join('= %s %s %s' % (l[1], list(l[2]), l[3]) for l in near[:2]) if near else 'no such store'))
            continue
        for gs, ins in ms:
            if x.opt and '(%s ne NULL)' % x.opt not in gs:
                c.violation('%s:%s:null' % (key, x.place), ins.ins.loc(), '%s: %s is written although the optional argument %s may be null' % (fn, x.place, x.opt))
        bad = [[g for g in gs if g not in x.must and not benign(g, {x.opt} if x.opt else ())] for gs, ins in ms]
        if all(bad):
            c.violation('%s:%s:cond' % (key, x.place), ms[0][1].ins.loc(), '%s: %s = %s only happens under %s' % (fn, x.place, x.val, bad[0]))
    for f in s.flags:
        pl, tags, r, opt = f
        c.ob('marks delivered', '%s: %s' % (fn, pl))
        fs = flagst.get(f, [])
        one_ = [z for z in fs if z[0] == '1']; zero = [z for z in fs if z[0] == '0']
        negs = [t.replace(' ne 0)', ' eq 0)') for t in tags]
        okone = bool(one_) and all(set(tags) <= set(z[1]) and '(%s ne NULL)' % opt in z[1] and all(g in tags or benign(g, {opt}) for g in z[1]) for z in one_)
        def okz(z):
            if '(%s ne NULL)' % opt not in z[1]: return False
            if any(g in negs for g in z[1]): return not any(g in z[1] for g in ()) 
            # unconditional 0 first, raised afterwards
            return all(benign(g, {opt}) for g in z[1]) and all(z[2].fn is o[2].fn and (z[2].fn.idominates(z[2].ins, o[2].ins) or len(tags) > 1) for o in one_)
        if not okone or not zero or not all(okz(z) for z in zero):
            c.violation('%s:%s:mark' % (key, pl), (fs[0][2].ins.loc() if fs else F.loc()), '%s: %s must be 1 exactly when %s holds; found %s' % (fn, pl, ' and '.join(tags), [(z[0], list(z[1])) for z in fs]))
    for u in s.used:
        c.ob('used vertices marked', u[0])
        if not any(l[0] in u and NUL.match(l[1]) for l in left):
            c.violation('%s:%s:used' % (key, u[0]), F.loc(), '%s does not mark the vertex as used (%s)' % (fn, u[0]))
    only = getattr(s, 'only', False); skip = getattr(s, 'skip', ())
    for pl, va, gs, rg, ins in left:
        if pl.startswith('loc:') or (skip and pl.startswith(skip)): continue
        if only:
            if any(x.place == pl for x in s.exp): c.violation('%s:%s:extra' % (key, pl), ins.ins.loc(), '%s also stores %s = %s %s' % (fn, pl, va, list(gs)))
            continue
        if not TRACK.match(pl): continue
        if NUL.match(va) and re.match(r'a0\.point\[.*\]\.tag$', pl): continue
        ok = False
        for p, v, k in s.extra:
            if p == pl and (v is None or v == va) and (not k or any('olt 0.0' in g or '0.0 ogt' in g or 'sgt' in g for g in gs)): ok = True
        if ok: c.count('known side stores'); continue
        c.violation('%s:%s:extra' % (key, pl), ins.ins.loc(), '%s also stores %s = %s %s %s' % (fn, pl, va, list(gs), rg))
    if it:
        c.ob('running positions', fn)
        iter_rule(c, F, fn, it, s.count, st)

def norm_iter(t, it): return t

def iter_rule(c, F, fn, it, cnt, st):
    """the running position starts again after the last entity and is advanced before it is used"""
    fld = it.split('.')[-1]
    fs = {x[4].fn for x in st if x[0] == it} or {F}
    inc = [x for x in st if x[0] == it and x[1] == '(%s+1)' % it]
    rst = [x for x in st if x[0] == it and x[1] == '0' and any(g in ('(%s eq %s)' % (it, cnt), '(%s sge %s)' % (it, cnt), '(%s eq %s)' % (cnt, it)) for g in x[2])]
    if not inc or not rst:
        c.violation('%s:%s' % (fn, it), F.loc(), '%s does not advance %s by one and restart it after the last entity' % (fn, it)); return
    for x in st:
        if re.match(r'a\d+\[\d+\]$', x[0]) and it in x[1]:
            G = x[4].fn
            incs = [y[4].ins for y in inc if y[4].fn is G]
            for ld in slice_loads(G, x[4].ins, fld):
                if not any(G.idominates(i, ld) for i in incs):
                    c.violation('%s:%s:order' % (fn, it), x[4].ins.loc(), '%s reads the entity before the position is advanced' % fn)

def slice_loads(F, ins, fld):
    out = []; seen = set(); todo = [ins.a[0][0]]
    while todo:
        v = todo.pop()
        if not isinstance(v, int) or v < F.nargs or v in seen: continue
        seen.add(v); i = F.by_id[v]
        if i.op == 'load':
            p = F.expr(i.a[0][0])
            if p[0] == 'fld' and p[3] == fld: out.append(i)
        for a in i.a:
            if isinstance(a, list):
                for x in a: todo.append(x if not isinstance(x, (list, tuple)) else x[0])
            else: todo.append(a)
    return out
