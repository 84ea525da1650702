"""Per-function store summaries: every store (place, value, guards) with induction variables in linear form and
callees expanded, so that index arithmetic, loop style and helper extraction do not matter."""
from .effects import *

def subst(e, m, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(e, E): return e
    if e in memo: return memo[e]
    r = m.get(e)
    if r is None:
        if e[0] in ('add', 'mul', 'sub', 'and', 'or', 'xor', 'shl', 'fadd', 'fmul'): r = binop(e[0], [subst(x, m, memo) for x in e[1:]])
        elif e[0] == 'idx': r = addidx0(subst(e[1], m, memo), subst(e[2], m, memo))
        else: r = mk(e[0], *[subst(x, m, memo) if isinstance(x, E) else x for x in e[1:]])
    memo[e] = r
    return r
def addidx0(b, x):
    if x == ('c', 0) and b[0] != 'fld' and False: return b
    return mk('idx', b, x)

def lin(F):
    """{phi id: linear form init + step*T} for induction phis; T = ('trip', header block)"""
    if hasattr(F, '_lin'): return F._lin
    out = {}
    for b, blk in enumerate(F.blocks):
        for i in blk:
            if i.op != 'phi': break
            if i.ty == 'double': continue
            back = [(v, p) for v, p in i.a[0] if F.dominates(b, p)]
            ini = [(v, p) for v, p in i.a[0] if not F.dominates(b, p)]
            if not back or not ini: continue
            iv = {F.expr(v) for v, p in ini}
            bv = {F.expr(v) for v, p in back}
            if len(iv) != 1 or len(bv) != 1: continue
            st = bv.pop(); me = mk('phi', i.id); init = iv.pop()
            step = None
            if st[0] == 'add' and me in st[1:]:
                r = [x for x in st[1:] if x is not me]
                step = r[0] if len(r) == 1 else mk('add', *r)
            elif st[0] == 'idx' and st[1] is me: step = st[2]; 
            if step is None: continue
            if contains(step, lambda x: x[0] in ('phi', 'cyc')): continue
            t = mk('trip', b)
            off = t if step == ('c', 1) else binop('mul', [t, step])
            if st[0] == 'idx': out[me] = addidx(init, off)
            else: out[me] = binop('add', [init, off])
    for b, blk in enumerate(F.blocks):
        for i in blk:
            if i.op != 'phi': break
            me = mk('phi', i.id)
            if me in out: continue
            ls = set(phi_leaves(F, me))
            if len(ls) == 1 and not contains(list(ls)[0], lambda x: x[0] in ('phi', 'cyc')): out[me] = ls.pop()
    # substitute inits that are themselves inductions of outer loops (rare)
    F._lin = out
    return out

class Store:
    __slots__ = ('place', 'val', 'guards', 'ins', 'fn', 'must', 'chain')
    def __repr__(self): return '%s = %s' % (pp(None, self.place), pp(None, self.val))

def ret_values(F, frm_edge):
    """values that may be returned when control takes edge (a, s)"""
    a, s = frm_edge
    vals = set()
    seen = set(); st = [s]
    edges = {(a, s)}
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        for n in F.succs[b]: edges.add((b, n)); st.append(n)
    for b in seen:
        t = F.blocks[b][-1]
        if t.op == 'ret':
            if t.a and isinstance(t.a[0], list) and t.a[0]:
                v = t.a[0][0]
                def leaf(v, bb, depth=0):
                    if isinstance(v, int) and v >= F.nargs and F.by_id[v].op == 'phi' and depth < 6:
                        ph = F.by_id[v]
                        for x, p in ph.a[0]:
                            if (p, ph.bb) in edges: leaf(x, p, depth + 1)
                    else: vals.add(F.expr(v))
                leaf(v, b)
            else: vals.add(mk('void'))
    return vals

def is_fail(vals, fail=(0, -1)):
    return all(v[0] == 'c' and v[1] in fail or v[0] == 'null' for v in vals)

def guards(F, bb, linmap):
    """conditions (expr, bool) on which the block depends, those leaving through a failure return and the
    continuation tests of enclosing loops removed"""
    out = []
    seen = set(); st = [bb]
    while st:
        b = st.pop()
        for (a, s) in F.cdeps.get(b, ()):
            if (a, s) in seen: continue
            seen.add((a, s)); st.append(a)
            t = F.blocks[a][-1]
            others = [x for x in set(F.succs[a]) if x != s]
            if all(is_fail(ret_values(F, (a, o))) and not reaches(F, o, bb) for o in others): continue
            if t.op == 'br':
                out.append((subst(F.expr(t.a[0]), linmap), s == t.a[1], a))
            else:
                out.append((mk('switch', subst(F.expr(t.a[0]), linmap)), [v for v, x in t.a[2] if x == s] or ['default'], a))
    return out
def reaches(F, a, b):
    return b in F.reachable(a)

def stores(P, F, depth=2, _stack=()):
    """all stores of F with callees expanded"""
    res = []
    lm = lin(F)
    loadmap = {}
    for i in F.ins():
        if i.op == 'store':
            s = Store(); s.place = subst(F.expr(i.a[0][1]), lm); s.val = subst(F.expr(i.a[0][0]), lm); s.guards = guards(F, i.bb, lm); s.ins = i; s.fn = F; s.chain = ()
            res.append(s)
        elif i.op == 'call' and depth > 0:
            c = F.callee(i)
            if c in ('llvm.memcpy.p0.p0.i64', 'memcpy'):
                s = Store(); s.place = mk('mem', subst(F.expr(i.a[1][0]), lm)); s.val = mk('mem', subst(F.expr(i.a[1][1]), lm), subst(F.expr(i.a[1][2]), lm)); s.guards = guards(F, i.bb, lm); s.ins = i; s.fn = F; s.chain = ()
                res.append(s); continue
            t = P.resolve(F, c) if c else None
            if t is None or t.key() in _stack or t.key() == F.key(): continue
            m = {mk('arg', k): subst(F.expr(a), lm) for k, a in enumerate(i.a[1])}
            g0 = guards(F, i.bb, lm)
            for s in stores(P, t, depth - 1, _stack + (F.key(),)):
                n = Store(); n.place = retag(s.place, m, i.id); n.val = retag(s.val, m, i.id)
                n.guards = g0 + [(retag(g[0], m, i.id),) + tuple(g[1:]) for g in s.guards]; n.ins = s.ins; n.fn = s.fn; n.chain = (i,) + s.chain
                res.append(n)
    return res
def retag(e, m, cid):
    mm = dict(m)
    for x in subexprs(e):
        if x[0] in ('phi', 'loc', 'call', 'trip', '?', 'cyc'): mm[x] = mk(x[0], '%s@%s' % (x[1], cid), *x[2:])
    return subst(e, mm)
