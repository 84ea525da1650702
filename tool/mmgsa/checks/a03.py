"""Each setter of parameters is partially evaluated (branches and switches on the identifier folded) for every identifier of
its library and for unknown ones. For each identifier: the documented setting receives the given value (in the documented
form) on every path to a success return; no setting outside the short list of dependent settings is stored; unknown
identifiers store nothing and fail. The integer getter, evaluated the same way, returns the same setting."""
from ..peval import *

# parameter -> list of (field of mesh->info, value, required guards); '?': any value computed from the argument
V = 'a3'
SIMPLE = dict(verbose='imprim', debug='ddebug', opnbdy='opnbdy', iso='iso', isoref='isoref', isosurf='isosurf', numsubdomain='nsd', optim='optim', optimLES='optimLES',
              noinsert='noinsert', noswap='noswap', nomove='nomove', nosurf='nosurf', nreg='nreg', xreg='xreg', nosizreq='nosizreq', numberOfLocalParam='npar',
              numberOfLSBaseReferences='nbr', numberOfMat='nmat', renum='renum', anisosize='ani', octree='PROctree')
INT = {k: [(f, V, ())] for k, f in SIMPLE.items()}
INT['3dMedit'] = [('renum', V, ())]
INT['angle'] = [('dhd', '-1.0', ('(a3 eq 0)',)), ('dhd', '0.707106781186548', ('(a3 ne 0)',))]
INT['nofem'] = [('setfem', '0', ('(a3 eq 1)',)), ('setfem', '1', ('(a3 ne 1)',))]
INT['mem'] = [('mem', V, ('(a3 sgt 0)',))]
INT['keepRef'] = [('iso', '2', ('(a3 ne 0)',))]
REAL = dict(hmin='hmin', hmax='hmax', hsiz='hsiz', hausd='hausd', ls='ls', xreg='lxreg')
DBL = {k: [(f, V, ())] for k, f in REAL.items()}
DBL['hmin'].append(('sethmin', '1', ())); DBL['hmax'].append(('sethmax', '1', ()))
DBL['angleDetection'] = [('dhd', '?cos( 180.0 3.14159', ())]
DBL['hgrad'] = [('hgrad', '?log(', ()), ('hgrad', '-1.0', ('le0',))]
DBL['hgradreq'] = [('hgradreq', '?log(', ()), ('hgradreq', '-1.0', ('le0',))]
DBL['rmc'] = [('rmc', V, ('nz',))]
# settings that a parameter resets as documented (its own storage, memory bounds)
SIDE = {'mem': r'a0\.(memMax|npmax|ntmax|nemax|namax)$', 'angle': r'a0\.(xpoint|nc1|xp|xpmax|xtetra|htab\.geom)$', 'numberOfLocalParam': r'a0\.info\.(npari|parTyp|par)', 'numberOfLSBaseReferences': r'a0\.info\.(nbri|br)',
        'numberOfMat': r'a0\.info\.(nmati|mat|iso$)', 'iso': r'a0\.(tetra|nt|nti|na|nai|memCur|tria|edge)', 'keepRef': r'a0\.info\.iso$', 'rmc': r'a0\.info\.rmc$', 'isosurf': r'a0\.(nt|nti|na|nai|tria|edge)'}
MAYBE = {'mem', 'keepRef', 'lag', 'xreg'}   # value refused or ignored without failure on some paths
COND = {'iso': ('(a0.info.iso eq 0)',), 'keepRef': ('(a0.info.nmat eq 0)',)}
GET = dict(MMG3D='verbose mem debug iso noinsert noswap nomove nosurf nreg xreg numberOfLocalParam numberOfMat renum octree'.split(),
           MMGS='verbose mem debug noinsert noswap nomove nreg xreg numberOfLocalParam renum'.split())

def run(c):
    P = c.prog('ndebug')
    c.rule(__doc__)
    for lib in ('MMG3D', 'MMGS', 'MMG2D'):
        setter(c, P, lib, '%s_Set_iparameter' % lib, 'IPARAM', INT)
        setter(c, P, lib, '%s_Set_dparameter' % lib, 'DPARAM', DBL)
        if lib in GET: getter(c, P, lib)
    c.floor('identifiers of setters', 99); c.floor('identifiers of getters', 47); c.floor('unknown identifiers', 16)

def ids(P, lib, kind): return {k.split('PARAM_')[1]: v for k, v in P.enums.items() if k.startswith('%s_%s_' % (lib, kind)) and not k.endswith('_size')}

def guardok(gs, want):
    """every wanted condition is among the guards"""
    for w in want:
        if w == 'le0':
            if not any(re.search(r'(ole|olt|ule|ult) 0\.0\)', g) and not g.startswith('!') or re.search(r'(ogt|oge|ugt|uge) 0\.0\)', g) and g.startswith('!') for g in gs): return False
        elif w == 'nz':
            continue
        elif w not in gs: return False
    return True

def top(s): return s.chain[0] if s.chain else s.ins

def setter(c, P, lib, fn, kind, table):
    F = P.need(fn)
    allst = canonical(P, F)
    par = mk('arg', 2)
    known = ids(P, lib, kind)
    every = {k: v for k, v in P.enums.items() if k.startswith(lib + '_') and 'PARAM_' in k}
    seen = 0
    for name, v in sorted(known.items(), key=lambda x: x[1]):
        if name == 'lag': continue  # only in builds with the elasticity solver
        if name not in table: raise Broken('no table entry for %s of %s' % (name, fn))
        S = Spec(F, {par: v})
        c.ob('identifiers of setters', '%s(%s)' % (fn, name))
        st = [x for x in allst if top(x[4]).bb in S.blocks and feasible(x, par, v)]
        prim = set()
        for f, val, must in table[name]:
            pl = 'a0.info.' + f
            ok = False
            for p, va, gs, rg, raw in st:
                if p != pl: continue
                g2 = [g for g in gs if not g.startswith('(a2 ') and not g.startswith('!(a2 ')]
                if val.startswith('?'):
                    txt = full(raw.fn, raw)
                    if not all(t in txt for t in val[1:].split()) and not (name == 'angleDetection' and 'cos' in txt): continue
                elif va != val: continue
                if must and not guardok(gs, must): continue
                ex = [g for g in g2 if g not in must and g not in COND.get(name, ()) and not numeric(g)]
                if ex: bad = (ex, raw); continue
                ok = True; prim.add(top(raw).bb)
            if not ok:
                near = ['%s %s' % (x[1], list(x[2])) for x in st if x[0] == pl]
                c.violation('%s:%s:%s' % (fn, name, f), (F.loc() if not near else [x for x in st if x[0] == pl][0][4].ins.loc()), '%s(%s): %s must receive %s%s; found %s' % (fn, name, f, val.replace(V, 'the given value'), ' if %s' % ' and '.join(must) if must else '', near or 'no store'))
        # nothing else is changed
        own = {'a0.info.' + f for f, _, _ in table[name]}
        for p, va, gs, rg, raw in st:
            if p in own and not any(val.startswith('?') or val == va for f, val, _ in table[name] if 'a0.info.' + f == p) and not (name in SIDE and re.match(SIDE[name], p)):
                c.violation('%s:%s:value:%s' % (fn, name, p), raw.ins.loc(), '%s(%s) stores %s instead of the given value in %s %s' % (fn, name, va, p, list(gs)))
            if p in own or not p.startswith(('a0.', 'a1.', 'a1[', 'a0[')) or p == 'a0.memCur': continue
            if name in SIDE and re.match(SIDE[name], p): continue
            c.violation('%s:%s:other:%s' % (fn, name, p), raw.ins.loc(), '%s(%s) also changes %s' % (fn, name, p))
        # every success return passes a store of the setting
        if name not in MAYBE and prim:
            allp = {top(x[4]).bb for x in st if x[0] in own}
            b = S.success_without(allp)
            if b is not None and name not in COND:
                c.violation('%s:%s:path' % (fn, name), F.blocks[b][-1].loc(), '%s(%s) can report success without storing the value' % (fn, name))
        # own value only: the value stored comes from the argument
    # unknown identifiers
    for v in (max(every.values()) + 3, -7):
        S = Spec(F, {par: v})
        c.ob('unknown identifiers', '%s(%d)' % (fn, v))
        st = [x for x in allst if top(x[4]).bb in S.blocks and x[0].startswith(('a0.', 'a1.')) and feasible(x, par, v)]
        if st: c.violation('%s:unknown' % fn, st[0][4].ins.loc(), '%s changes %s for an unknown identifier' % (fn, st[0][0]))
        if not is_fail(S.rets()): c.violation('%s:unknown:ret' % fn, F.loc(), '%s does not fail for an unknown identifier' % fn)

def numeric(g):
    """validity test of the given value itself (a refusal of the other outcome is documented)"""
    return bool(re.match(r'^!?\((a3|a0\.info\.(hgrad|hgradreq|rmc|dhd|mem)) [a-z]+ -?[\d.e-]+\)$', g))

def feasible(x, par, v):
    """guards on the identifier hold for v"""
    for g in x[4].guards:
        e = g[0]
        if e[0] == 'switch' and e[1] == par:
            if isinstance(g[1], list) and v not in g[1] and 'default' not in g[1]: return False
    return True

def full(F, s):
    """text of the stored value with what flows into it through local values and phis"""
    out = []; seen = set(); todo = [s.ins.a[0][0]]
    C = Canon(F)
    while todo:
        v = todo.pop()
        if not isinstance(v, int) or v in seen: continue
        seen.add(v)
        e = F.expr(v)
        out.append(C(e))
        for x in subexprs(e):
            if x[0] == 'phi':
                for y, b in F.by_id[x[1]].a[0] if x[1] in F.by_id else (): todo.append(y); out.append(C(F.expr(y)))
    return ' '.join(out)

def getter(c, P, lib):
    fn = '%s_Get_iparameter' % lib; F = P.need(fn)
    par = mk('arg', 1)
    for name, v in sorted(ids(P, lib, 'IPARAM').items(), key=lambda x: x[1]):
        S = Spec(F, {par: v})
        c.ob('identifiers of getters', '%s(%s)' % (fn, name))
        r = S.rets()
        C = Canon(F)
        t = {C(x) for x in r}
        if name == 'angle':
            if not t <= {'0', '1'} or not angle(F, S): c.violation('%s:%s' % (fn, name), F.loc(), '%s(angle) is not 1 exactly when the detection is on (dhd >= 0): %s' % (fn, sorted(t)))
            continue
        if name == 'lag': want = 'a0.info.lag'
        elif name == 'keepRef' or name == 'nofem': want = None
        else: want = 'a0.info.' + INT[name][0][0]
        if name in GET[lib]:
            if want not in t or t - {want, '0'}: c.violation('%s:%s' % (fn, name), F.loc(), '%s(%s) returns %s instead of %s' % (fn, name, sorted(t), want))
            if '0' in t and len(t) > 1: c.violation('%s:%s' % (fn, name), F.loc(), '%s(%s) returns %s' % (fn, name, sorted(t)))
        elif t - {'0', want}: c.violation('%s:%s' % (fn, name), F.loc(), '%s(%s) returns %s, another setting than %s' % (fn, name, sorted(t), want))
    C = Canon(F)
    for v in (999, -7):
        t = {C(x) for x in Spec(F, {par: v}).rets()}
        c.ob('unknown identifiers', '%s(%d)' % (fn, v))
        if t != {'0'}: c.violation('%s:unknown' % fn, F.loc(), '%s returns %s for an unknown identifier' % (fn, sorted(t)))

def angle(F, S):
    for neg in (True, False):
        def dec(G, t):
            e = G.expr(t.a[0])
            if e[0] == 'cmp' and e[3][0] in ('f', 'c') and float(e[3][1]) == 0 and e[2][0] == 'ld' and e[2][1][0] == 'fld' and e[2][1][3] == 'dhd':
                x = -1.0 if neg else 0.7
                return {'olt': x < 0, 'ult': x < 0, 'ole': x <= 0, 'ogt': x > 0, 'oge': x >= 0, 'uge': x >= 0, 'ugt': x > 0, 'ule': x <= 0}.get(e[1])
            return None
        S2 = Spec(F, S.sub, dec)
        if S2.rets() != {mk('c', 0 if neg else 1)}: return False
    return True
