"""Canonical text of access paths, index polynomials and store summaries: independent of local names, of how an
index is computed, of the direction of a loop, of the split of a function in helpers."""
from .summ import *

def poly(e):
    """{monomial (sorted tuple of atoms): coefficient}"""
    t = e[0]
    if t == 'c': return {(): e[1]} if e[1] else {}
    if t == 'add':
        r = {}
        for x in e[1:]:
            for m, k in poly(x).items():
                r[m] = r.get(m, 0) + k
                if not r[m]: del r[m]
        return r
    if t == 'sub':
        r = dict(poly(e[1]))
        for m, k in poly(e[2]).items():
            r[m] = r.get(m, 0) - k
            if not r[m]: del r[m]
        return r
    if t == 'mul':
        r = {(): 1}
        for x in e[1:]:
            p = poly(x); q = {}
            for m, k in r.items():
                for n, l in p.items():
                    z = tuple(sorted(m + n)); q[z] = q.get(z, 0) + k * l
                    if not q[z]: del q[z]
            r = q
        return r
    return {(e,): 1}
def unpoly(p):
    ts = []
    for m, k in p.items():
        xs = list(m) + ([mk('c', k)] if k != 1 or not m else [])
        ts.append(xs[0] if len(xs) == 1 else mk('mul', *xs))
    if not ts: return mk('c', 0)
    return ts[0] if len(ts) == 1 else mk('add', *ts)

class Canon:
    def __init__(self, F, ren=None): self.F = F; self.ren = ren or {}
    def ps(self, e):
        p = poly(e)
        out = []
        for m, k in p.items():
            s = '*'.join(sorted(self(x) for x in m))
            out.append((s, k))
        out.sort()
        r = ''
        for s, k in out:
            if not s: continue
            t = s if k == 1 else '%d*%s' % (k, s)
            r += ('+' if r and not t.startswith('-') else '') + t
        c = p.get((), 0)
        if c or not r: r += ('+%d' % c if r and c > 0 else '%d' % c)
        return r
    def __call__(self, e):
        t = e[0]
        if e in self.ren: return self.ren[e]
        if t == 'arg': return 'a%s' % e[1]
        if t == 'c': return str(e[1])
        if t == 'f':
            return '%r' % float(e[1]) if re.match(r'-?[0-9.]+(e[-+]?\d+)?$', str(e[1])) else str(e[1])
        if t == 'null': return 'NULL'
        if t in ('fn', 'g'): return e[1]
        if t == 'ld': return self.place(e[1])
        if t in ('fld', 'idx'): return '&' + self.place(e)
        if t in ('add', 'mul', 'sub'): return '(%s)' % self.ps(e)
        if t == 'cmp': return '(%s %s %s)' % (self(e[2]), e[1], self(e[3]))
        if t == 'sel':
            c = e[1]
            if c[0] == 'cmp' and c[1] == 'slt' and c[3] == ('c', 0) and e[3] is c[2] and poly(e[2]) == {m: -k for m, k in poly(e[3]).items()}: return 'abs(%s)' % self(e[3])
            return '(%s?%s:%s)' % (self(e[1]), self(e[2]), self(e[3]))
        if t == 'pure': return '%s(%s)' % (e[1], ','.join(self(x) for x in e[2:]))
        if t in ('or', 'and', 'xor', 'fadd', 'fmul'): return '%s(%s)' % (t, ','.join(sorted(self(x) for x in e[1:])))
        if t in ('trip', 'loc', 'phi', 'call', '?', 'cyc'): return '%s' % t + ':' + ':'.join(map(str, e[1:]))
        return '%s(%s)' % (t, ','.join(self(x) if isinstance(x, E) else str(x) for x in e[1:]))
    def place(self, e):
        """text of the object at address e"""
        t = e[0]
        if e in self.ren: return self.ren[e]
        if t == 'fld':
            b = e[1]
            if b[0] in ('idx', 'fld'): return '%s.%s' % (self.place(b), e[3])
            return '%s.%s' % (self.deref(b), e[3])
        if t == 'idx':
            # pointer arithmetic chains collapse: ((p + a) + b) -> p[a+b]
            b = e[1]; ix = e[2]
            while b[0] == 'idx' and not self.isarr(b): ix = binop('add', [ix, b[2]]); b = b[1]
            if b[0] in ('fld',): return '%s[%s]' % (self.place(b), self.ps(ix))
            if b[0] == 'idx': return '%s[%s]' % (self.place(b), self.ps(ix))
            s = self(b)
            return '%s[%s]' % (s, self.ps(ix))
        if t == 'ld': return self(e) + '[0]'
        if t in ('arg', 'call', 'phi', 'sel'): return self(e) + '[0]'
        return self(e)
    def deref(self, b):
        s = self(b)
        return s
    def isarr(self, b):
        """idx into an in-struct or local array (so a further idx is a second dimension)"""
        return b[1][0] in ('fld', 'g') and False

def flat_trips(e): return [x for x in subexprs(e) if x[0] == 'trip']

NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

def conds(gs):
    """guards (expr, truth, ..) -> list of (expr, bool), switches turned into equalities"""
    out = []
    for g in gs:
        e, v = g[0], g[1]
        if e[0] == 'switch':
            if isinstance(v, list):
                cs = [x for x in v if x != 'default']
                if len(cs) == 1 and 'default' not in v: out.append((mk('cmp', 'eq', e[1], mk('c', cs[0])), True))
                else: out.append((e, True))
            continue
        while e[0] == 'xor' and ('c', 1) in [tuple(x) for x in e[1:]]:
            e = [x for x in e[1:] if x != ('c', 1)][0]; v = not v
        if e[0] == 'cmp' and e[2][0] == 'cmp' and e[3] == ('c', 0) and e[1] in ('ne', 'eq'):
            v = v if e[1] == 'ne' else not v; e = e[2]
        if e[0] == 'cmp' and not v and e[1] in NEG: e = mk('cmp', NEG[e[1]], e[2], e[3]); v = True
        if (e, v) not in out: out.append((e, v))
    return out

def loop_bound(t, cs):
    """(bound expression B such that the guard says t < B, the guard used) or (None, None)"""
    for g in cs:
        e, v = g
        if e[0] != 'cmp' or not v: continue
        pr, a, b = e[1], e[2], e[3]
        if not contains(a, lambda x: x is t) and not contains(b, lambda x: x is t): continue
        # d = b - a
        d = poly(mk('sub', b, a)) if pr in ('slt', 'sle', 'ne', 'ult', 'ule') else poly(mk('sub', a, b)) if pr in ('sgt', 'sge', 'ugt', 'uge') else None
        if d is None: continue
        k = d.get((t,))
        if pr == 'ne' and k == 1: d = {m: -c for m, c in d.items()}; k = -1
        if k != -1 or any(t in m and m != (t,) for m in d): continue
        d = {m: c for m, c in d.items() if m != (t,)}
        # a < b  <=> t < d ; a <= b <=> t < d+1
        if pr in ('sle', 'sge', 'ule', 'uge'): d[()] = d.get((), 0) + 1
        if not d.get((), 1): d.pop((), None)
        return unpoly(d), g
    return None, None

def neg(x):
    e, v = x
    return (mk('cmp', NEG[e[1]], e[2], e[3]), v) if e[0] == 'cmp' and e[1] in NEG else None
def constcmp(e):
    if e[0] == 'cmp' and e[2][0] == 'c' and e[3][0] == 'c':
        a, b = e[2][1], e[3][1]
        return {'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b, 'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}.get(e[1])
    return None
def canonical(P, F, depth=2, consts=8, ren=None, sub=None):
    """list of (place text, value text, frozenset(guard texts), ranges text, instruction, raw store, guards): constant loops expanded"""
    res = []
    for s in expand_mem(F, stores(P, F, depth)):
        c0 = conds(s.guards)
        # a condition on which both outcomes lead here (control dependences are alternatives) is no condition
        c0 = [x for x in c0 if (x[0], not x[1]) not in c0 and neg(x) not in c0]
        todo = [(s.place, s.val, c0)]
        if sub:
            m = {x: sub(x) for e in [s.place, s.val] + [g[0] for g in c0] for x in subexprs(e) if sub(x) is not None}
            if m: todo = [(subst(s.place, m), subst(s.val, m), [(subst(e, m), v) for e, v in c0])]
        fin = []
        n = 0
        while todo:
            pl, va, cs = todo.pop(); n += 1
            if n > 400: raise Broken('store expansion of %s' % F.name)
            ts = set(flat_trips(pl)) | set(flat_trips(va))
            # conditions about other loops (their exits) and constant conditions say nothing about this store
            cs2 = []
            dead = False
            for e, v in cs:
                if any(x not in ts for x in flat_trips(e)): continue
                if e[0] == 'c': 
                    if bool(e[1]) != v: dead = True
                    continue
                k = constcmp(e)
                if k is not None:
                    if k != v: dead = True
                    continue
                if (e, not v) in cs2: dead = True
                if (e, v) not in cs2: cs2.append((e, v))
            if dead: continue
            cs = cs2
            exp = False
            for t in sorted(ts):
                b, g = loop_bound(t, cs)
                if b is not None and b[0] == 'c' and 0 <= b[1] <= consts:
                    cs2 = [x for x in cs if x is not g]
                    for k in range(b[1]):
                        m = {t: mk('c', k)}
                        todo.append((subst(pl, m), subst(va, m), [(subst(x[0], m), x[1]) for x in cs2]))
                    exp = True; break
            if exp: continue
            # value cases
            if va[0] == 'cmp': todo += [(pl, mk('c', 1), cs + [x for x in conds([(va, True)])]), (pl, mk('c', 0), cs + [x for x in conds([(va, False)])])]; continue
            if va[0] == 'sel' and not Canon(F)(va).startswith('abs'):
                todo += [(pl, va[2], cs + conds([(va[1], True)])), (pl, va[3], cs + conds([(va[1], False)]))]; continue
            fin.append((pl, va, cs))
        for pl, va, cs in fin:
            # loops over 1..n going down are rewritten upwards
            rn = dict(ren or {}); rng = []; used = []
            for t in sorted(set(flat_trips(pl)) | set(flat_trips(va))):
                b, g = loop_bound(t, cs)
                if g: used.append(g)
                co = [m for m in poly_idx(pl, va) if False]
                if b is not None and descending(t, pl, va):
                    new = unpoly(poly(mk('sub', mk('add', b, mk('c', -1)), t)))
                    pl, va = subst(pl, {t: new}), subst(va, {t: new})
                nm = 'T' if not rng else 'T%d' % len(rng)
                rn[t] = nm
                rng.append((nm, b))
            C = Canon(F, rn)
            res.append((C.place(pl), C(va), tuple(sorted({('' if v else '!') + C(e) for e, v in cs if (e, v) not in used})), tuple('%s<%s' % (nm, C.ps(b) if b is not None else '?') for nm, b in rng), s))
    return res
def esize(F, e):
    """element size of the array at address e (0: unknown)"""
    while e[0] == 'idx': e = e[1]
    if e[0] == 'ld': e = e[1]
    if e[0] == 'fld': return {'m': 8, 'c': 8, 'n': 8, 'v': 4, 'tag': 2}.get(e[3], 0)
    if e[0] == 'arg' and isinstance(e[1], int) and e[1] < len(F.argdi): return 8 if 'double' in F.argdi[e[1]] else 4
    return 0
def expand_mem(F, ss):
    """a memcpy of a known number of elements is the same as the element-wise stores"""
    for s in ss:
        if s.place[0] != 'mem': yield s; continue
        d, src, n = s.place[1], s.val[1], s.val[2]
        z = esize(F, d) or esize(F, src)
        p = poly(n)
        if not z or any(k % z for k in p.values()) or len(p) != 1: yield s; continue
        (mo, k), = p.items(); k //= z
        if not mo: t, cnt, rng = None, k, None
        else: t = mk('trip', 'm%d' % s.ins.id); cnt = k; rng = unpoly({mo: 1})
        if cnt > 16: yield s; continue
        for j in range(cnt):
            off = mk('c', j) if t is None else binop('add', [binop('mul', [t, mk('c', cnt)]), mk('c', j)])
            q = Store(); q.place = at(d, off); q.val = mk('ld', at(src, off)); q.ins = s.ins; q.fn = s.fn; q.chain = s.chain
            q.guards = list(s.guards) + ([(mk('cmp', 'slt', t, rng), True, 0)] if t is not None else [])
            yield q
def at(e, off):
    if e[0] == 'idx': return mk('idx', e[1], binop('add', [e[2], off]))
    return mk('idx', e, off)
def poly_idx(pl, va): return ()
def descending(t, pl, va):
    for x in list(subexprs(pl)) + list(subexprs(va)):
        if x[0] == 'idx':
            k = poly(x[2]).get((t,))
            if k is not None and k < 0: return True
    return False
