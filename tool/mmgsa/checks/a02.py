"""On the release (NDEBUG) IR of every setter that takes the position of a vertex, an element, an edge or a solution value:
each store to an entity or to a solution value lies behind a branch whose taken edge implies 'position <= declared count'
(solutions: also 1 <= position), whatever the form of the comparison; the refusing edges only lead to returns of failure and to no such
store. Setters that delegate return the refusal of the setter they call."""
from ..canon import *
from . import a01

ENT = re.compile(r'^(point|tetra|prism|tria|quadra|edge)$')

def implied(e, v):
    """atomic facts (expr, bool) implied by condition e having value v"""
    if e[0] == 'xor' and ('c', 1) in [tuple(x) for x in e[1:]]:
        r = [x for x in e[1:] if x != ('c', 1)]
        return implied(r[0], not v)
    if e[0] == 'and' and v or e[0] == 'or' and not v:
        return [f for x in e[1:] for f in implied(x, v)]
    if e[0] == 'sel':
        # c ? x : false  being true; c ? true : x being false
        if v and e[3] == ('c', 0): return implied(e[1], True) + implied(e[2], True)
        if not v and e[2] == ('c', 1): return implied(e[1], False) + implied(e[3], False)
    if e[0] == 'cmp' and e[2][0] in ('cmp', 'sel', 'and', 'or', 'xor') and e[3] == ('c', 0) and e[1] in ('ne', 'eq'):
        return implied(e[2], v if e[1] == 'ne' else not v)
    return conds([(e, v)])

def edge_facts(F, lm, bb):
    """facts that hold whenever bb is reached: from every branch one of whose edges all paths to bb must take"""
    out = []
    for a in range(len(F.blocks)):
        if a == bb or not F.dominates(a, bb): continue
        t = F.blocks[a][-1]
        if t.op != 'br' or t.a[0] is None: continue
        for k, s in enumerate((t.a[1], t.a[2])):
            o = (t.a[2], t.a[1])[k]
            if o == s: continue
            if not edge_reaches(F, o, bb, a):
                e = subst(F.expr(t.a[0]), lm)
                for f in implied(boolphi(F, e), k == 0): out.append((f, a, s, o))
    return out
def boolphi(F, e): return e
def edge_reaches(F, o, bb, a):
    """bb reachable from o without going through a again"""
    seen = set(); st = [o]
    while st:
        b = st.pop()
        if b == bb: return True
        if b in seen or b == a: continue
        seen.add(b); st += F.succs[b]
    return False

def le(f, pos, cnt):
    """fact f implies pos <= cnt"""
    e, v = f
    if e[0] != 'cmp' or not v: return False
    pr = e[1]
    if pr in ('sle', 'slt', 'ule', 'ult'): d = poly(mk('sub', e[3], e[2]))
    elif pr in ('sge', 'sgt', 'uge', 'ugt'): d = poly(mk('sub', e[2], e[3]))
    else: return False
    s = 1 if pr in ('slt', 'sgt', 'ult', 'ugt') else 0
    # 0 <= d - s   must give pos <= cnt: d - s = cnt - pos - k with k >= 0
    w = poly(mk('sub', cnt, pos))
    k = dict(w)
    for m, x in d.items():
        k[m] = k.get(m, 0) - x
        if not k[m]: del k[m]
    k0 = k.pop((), 0) + s
    return not k and k0 >= 0

def run(c):
    P = c.prog('ndebug')
    c.rule(__doc__)
    for s in a01.specs():
        m = re.match(r'Set_(vertex|triangle|edge|quadrilateral|tetrahedron|prism|scalarSol|vectorSol|tensorSol)$', s.name)
        if m: setter(c, P, s, m[1])
        elif s.name == 'Set_ithSol_inSolsAtVertices': deleg(c, P, '%s_%s' % (s.lib, s.name))
    c.floor('setters with a position', 22); c.floor('guarded stores', 120); c.floor('delegating setters', 3)

def setter(c, P, s, kind):
    fn = '%s_%s' % (s.lib, s.name); F = P.need(fn)
    c.ob('setters with a position', fn)
    posn = F.nargs - 1; pos = mk('arg', posn)
    sol = kind.endswith('Sol')
    lm = lin(F)
    arrs = dict(vertex='point', triangle='tria', edge='edge', quadrilateral='quadra', tetrahedron='tetra', prism='prism')
    cf = 'np' if sol else a01.COUNT[arrs[kind]]
    # the stores to entities of this function, and of the helpers it calls (their call sites stand for them)
    sites = []
    for i in F.ins():
        if i.op == 'store':
            p = F.expr(i.a[0][1])
            if tracked(p): sites.append((i, p))
        elif i.op in ('call', 'invoke'):
            t = P.resolve(F, F.callee(i)) if F.callee(i) else None
            if t and any(tracked(x.place) for x in stores(P, t, 1)): sites.append((i, None))
    if not sites: raise Broken('%s stores nothing' % fn)
    for i, p in sites:
        c.ob('guarded stores', '%s: %s' % (fn, pp(F, p) if p is not None else 'call of ' + F.callee(i)))
        fs = edge_facts(F, lm, i.bb)
        cnts = {x for f in fs for x in subexprs(f[0][0]) if x[0] == 'ld' and x[1][0] == 'fld' and x[1][3] == cf and x[1][1] == ('arg', 0)}
        ok = [f for f in fs if any(le(f[0], pos, x) for x in cnts)]
        if not ok:
            c.violation('%s:guard' % fn, i.loc(), '%s: the store to %s is reached for positions beyond %s' % (fn, pp(F, p) if p is not None else F.callee(i), cf)); continue
        if sol and not any(le(f[0], mk('c', 1), pos) for f in fs):
            c.violation('%s:low' % fn, i.loc(), '%s writes values at positions below 1' % fn)
        for f in ok:
            o = f[3]
            if not refuses(F, f[1], o):
                c.violation('%s:refuse' % fn, F.blocks[f[1]][-1].loc(), '%s: a position beyond %s does not lead to a failure return' % (fn, cf))
            r = F.reachable(o)
            if any(j.bb in r for j, q in sites):
                c.violation('%s:stores' % fn, F.blocks[f[1]][-1].loc(), '%s writes entities after refusing a position' % fn)

def refuses(F, a, o): return is_fail(ret_values(F, (a, o)))

def tracked(p):
    while p[0] in ('fld', 'idx'):
        if p[0] == 'idx' and p[1][0] == 'ld' and p[1][1][0] == 'fld' and (ENT.match(p[1][1][3]) or p[1][1][3] == 'm'): return True
        p = p[1]
    return False

def deleg(c, P, fn):
    F = P.need(fn)
    c.ob('delegating setters', fn)
    rets = set()
    for b in F.blocks:
        t = b[-1]
        if t.op == 'ret' and t.a and t.a[0]:
            v = t.a[0][0] if isinstance(t.a[0], list) else t.a[0]
            rets |= set(phi_leaves(F, F.expr(v)))
    n = 0
    for i in F.calls():
        cn = F.callee(i) or ''
        if not re.match(r'MMG(3D|S|2D)_Set_\w+Sol$', cn): continue
        n += 1
        c.ob('delegated refusals', '%s -> %s' % (fn, cn))
        ok = any(contains(r, lambda x: x[0] == 'call' and x[2] == i.id) for r in rets)
        if not ok:
            # tested: the zero edge must fail
            for b, blk in enumerate(F.blocks):
                t = blk[-1]
                if t.op == 'br' and t.a[0] is not None and F.dominates(i.bb, b):
                    for k, o in ((True, t.a[1]), (False, t.a[2])):
                        for (e, v) in implied(F.expr(t.a[0]), k):
                            if v and e[0] == 'cmp' and e[1] == 'eq' and e[3] == ('c', 0) and e[2][0] == 'call' and e[2][2] == i.id and is_fail(ret_values(F, (b, o))): ok = True
        if not ok: c.violation('%s:%s' % (fn, cn), i.loc(), '%s reports success although %s refuses the position' % (fn, cn))
    if n < 3: raise Broken('%s: delegates to %d setters' % (fn, n))
