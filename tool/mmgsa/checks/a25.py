"""Every place that writes the coordinates of an existing vertex and every place that removes one carries the obligation that the marks of that very vertex
were found not to forbid it. The obligation (the address of the vertex as an expression) is discharged by tests of the mark bits on all paths to the place
(forward must-analysis of known-clear bits per vertex expression), or handed to all callers with the arguments substituted; a vertex named through the list of a
neighbourhood is translated into the vertex whose neighbourhood the list was built from."""
from ..ir import *
from ..effects import root
from . import a05
import re, os, glob
from ..build import Broken, REPO

REQ, CRN, BDY, ALL = 1 << 2, 1 << 5, 1 << 4, 0xffff
SAFE = 1 << 20           # no corner of the boundary: the corner mark or the boundary mark is known to be clear
NEW = 1 << 21            # a vertex just inserted
# neighbourhood routines: (starting entity, local index, lists): every entry of the list designates that vertex
BALL = {'MMG5_boulevolp': (1, 2, (3,)), 'MMG5_boulesurfvolp': (1, 2, (4,)), 'MMG5_boulesurfvolpNom': (1, 2, (4,)), 'MMG5_boulet': (1, 2, (3,)), 'boulechknm': (1, 2, (3,)),
        'MMG2D_boulep': (1, 2, (3,)), 'MMG2D_bouleendp': (1, 2, (5,))}
# displacements asked for by the user, change of units, analysis of the input, and the interface
OUT = re.compile(r'dispmesh|_save|_newPt$|_[sS]cale|_unscale|_Set_|_load|_read|bdryUpdate')

def pnt(F, e):
    """the vertex whose coordinates an address lies in: e is the address of a member of MMG5_Point"""
    while e[0] == 'idx' and e[1][0] in ('fld', 'idx'): e = e[1]
    if e[0] == 'fld' and e[2] == 'struct.MMG5_Point' and e[3] == 'c': return e[1]
    return None

def isentity(p): return p[0] == 'idx' and p[1][0] == 'ld' and p[1][1][0] == 'fld'
def index(p): return p[2] if p[0] == 'idx' else None

def public():
    out = set()
    for f in glob.glob(os.path.join(REPO, 'src', '*', 'libmmg*.h')):
        if not f.endswith('_private.h'): out |= set(re.findall(r'\b(MMG\w*)\s*\(', open(f, errors='replace').read()))
    return out

def has(e, f):
    st = [e]
    while st:
        x = st.pop()
        if f(x): return True
        st += [z for z in x[1:] if not isinstance(z, (int, str, float))]
    return False

def rewrite(e, f):
    y = f(e)
    if y is not None: return y
    out = []; ch = False
    for z in e[1:]:
        if isinstance(z, (int, str, float)): out.append(z)
        else:
            w = rewrite(z, f); ch |= w is not z
            out.append(w)
    return mk(e[0], *out) if ch else e

def fields1(p):
    while p[0] == 'idx': p = p[1]
    return (p[2], p[3]) if p[0] == 'fld' else None

def norm(e):
    """a condition and whether it is meant as it stands (False: negated)"""
    if e[0] == 'cmp' and e[1] == 'ne': return mk('cmp', 'eq', *e[2:]), False
    return e, True

def meet(d, o): return {k: d[k] & o[k] for k in d if k in o and d[k] & o[k]}
def put(ds, a, st): ds[a] = meet(ds[a], st) if a in ds else st

class Marks:
    def __init__(self, c, P):
        self.c = c; self.P = P; self.quiet = {}; self.wf = {}; self.memo = {}; self.pm = {}
        # routines that change marks or connectivity
        own = {F.key() for F in P.fns.values() if any(i.op == 'store' and self.disturbs(F, i) for i in F.ins())}
        self.wr = own
        self.callers = {}
        for F in P.fns.values():
            for i in F.ins():
                if i.op in ('call', 'invoke'):
                    for t in P.targets(F, i): self.callers.setdefault(t.key(), []).append((F, i))
        st = list(own)
        while st:
            for G, i in self.callers.get(st.pop(), ()):
                if G.key() not in self.wr: self.wr.add(G.key()); st.append(G.key())
    def disturbs(self, F, i):
        e = F.expr(i.a[0][1])
        while e[0] == 'idx': e = e[1]
        if e[0] != 'fld' or not isentity(e[1]) and e[1][0] != 'phi': return False
        if e[3] == 'v' and e[2] in ('struct.MMG5_Tetra', 'struct.MMG5_Tria'): return e[1][0] != 'idx' or e[1][2] != ('c', 0)
        if e[2] == 'struct.MMG5_Point' and e[3] == 'tag':
            v = F.expr(i.a[0][0])
            return not (v[0] == 'and' and mk('ld', F.expr(i.a[0][1])) in v[1:])
        return False
    # ---------------------------------------------------------------- known-clear bits
    def bits(self, F, e, depth=0):
        """(vertex, mask) if e is a masked mark word"""
        m = ALL
        while e[0] == 'and':
            cs = [x for x in e[1:] if x[0] == 'c']; r = [x for x in e[1:] if x[0] != 'c']
            if len(r) != 1 or not cs: return None
            for x in cs: m &= x[1]
            e = r[0]
        if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2] == 'struct.MMG5_Point' and e[1][3] == 'tag': return e[1][1], m & ALL
        if e[0] == 'phi' and depth < 4:
            i = F.by_id[e[1]]
            if any(F.dominates(i.bb, p) for v, p in i.a[0]): return None
            xs = [self.bits(F, F.expr(v), depth + 1) for v, p in i.a[0]]
            if None in xs or len({x[0] for x in xs}) != 1: return None
            for x in xs: m &= x[1]
            return xs[0][0], m & ALL
        return None
    def learn(self, F, e, truth):
        if e[0] == 'xor' and len(e) == 3 and any(x in (('c', 1), ('c', -1)) for x in e[1:]): return self.learn(F, [x for x in e[1:] if x[0] != 'c'][0], not truth)
        if e[0] != 'cmp': return []
        op, a, b = e[1], e[2], e[3]
        if a[0] == 'c' and b[0] != 'c':
            a, b = b, a; op = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(op, op)
        if not truth: op = {'eq': 'ne', 'ne': 'eq', 'sgt': 'sle', 'sle': 'sgt', 'slt': 'sge', 'sge': 'slt', 'ugt': 'ule', 'ule': 'ugt', 'ult': 'uge', 'uge': 'ult'}.get(op, op)
        x = self.bits(F, a)
        if x is None:
            y = self.bits(F, b)
            if y and op in ('sge', 'uge', 'sgt', 'ugt') and self.edgemark(a): return [(y[0], CRN & y[1])]
            return []
        if b[0] == 'c':
            if op == 'eq': return [(x[0], x[1] & ~b[1] & ALL)]
            if op in ('slt', 'ult') and b[1] == 1 or op in ('sle', 'ule') and b[1] == 0: return [x]
            if op in ('sle', 'ule', 'slt', 'ult') and b[1] > 0:
                top = 1 << b[1].bit_length()
                return [(x[0], x[1] & ~(top - 1) & ALL)]
        elif op in ('sle', 'ule', 'slt', 'ult') and self.edgemark(b): return [(x[0], CRN & x[1])]
        return []
    def edgemark(self, e):
        """e is the mark word of an edge (which never carries the corner mark)"""
        while e[0] in ('and', 'or'):
            r = [x for x in e[1:] if x[0] != 'c']
            if len(r) != 1: return False
            if any(x[0] == 'c' and e[0] == 'or' and x[1] & (CRN | ALL & ~(2 * CRN - 1)) for x in e[1:]): return False
            e = r[0]
        if e[0] == 'ld':
            x = e[1]
            while x[0] == 'idx': x = x[1]
            return x[0] == 'fld' and x[3] == 'tag' and x[2] in ('struct.MMG5_xTetra', 'struct.MMG5_Tria')
        return False
    def same(self, F, t, truth):
        """vertices known to be one just inserted: a connectivity entry compared equal with its number, also at the end of a search loop for it"""
        def eqs(e, truth):
            if e[0] == 'cmp' and e[1] == ('eq' if truth else 'ne'):
                for a, b in ((e[2], e[3]), (e[3], e[2])):
                    if a[0] == 'ld' and a[1][0] == 'idx' and a[1][1][0] == 'fld' and a[1][1][3] == 'v' and new(F, b, True):
                        m = a[1]
                        while m[0] in ('fld', 'idx', 'ld') : m = m[1]
                        yield mk('idx', mk('ld', mk('fld', mk('arg', 0), 'struct.MMG5_Mesh', 'point')), a)
        e = F.expr(t.a[0])
        out = list(eqs(e, truth))
        if not truth and e[0] == 'cmp' and e[1] in ('slt', 'ult') and e[2][0] == 'phi' and e[3] in (('c', 3), ('c', 4)) and F.by_id[e[2][1]].bb == t.bb:
            for j in F.ins():
                if j.op == 'br' and j.a[0] is not None and F.dominates(t.bb, j.bb):
                    for tr in (True, False): out += [k for k in eqs(F.expr(j.a[0]), tr) if has(k, lambda y: y == e[2])]
        return out
    def outs(self, F):
        """local variable -> what the one call that fills it stores there"""
        if F.key() in self.pm: return self.pm[F.key()]
        o = {}; count = {}
        for i in F.ins():
            if i.op == 'store':
                p = F.expr(i.a[0][1])
                if p[0] == 'loc': count[p] = count.get(p, 0) + 2
            if i.op in ('call', 'invoke') and not (F.callee(i) or '').startswith('llvm.'):
                args = [F.expr(a) for a in i.a[1]]
                for n, L in enumerate(args):
                    if L[0] != 'loc': continue
                    ts = self.P.targets(F, i)
                    vs = {t.expr(j.a[0][0]) for t in ts for j in t.ins() if j.op == 'store' and t.expr(j.a[0][1]) == mk('arg', n)}
                    if vs: count[L] = count.get(L, 0) + 1
                    if len(vs) == 1:
                        v = vs.pop(); r = rewrite(v, lambda y: (args[y[1]] if y[1] < len(args) else mk('?', 0)) if y[0] == 'arg' else mk('?', 0) if y[0] in ('loc', 'phi', 'call') else None)
                        if not has(r, lambda y: y[0] == '?'): o[L] = r
        self.pm[F.key()] = {k: v for k, v in o.items() if count.get(k) == 1}
        return self.pm[F.key()]
    def canon(self, F, e):
        o = self.outs(F)
        if not o: return e
        for _ in range(4):
            n = rewrite(e, lambda y: o.get(y[1]) if y[0] == 'ld' and y[1][0] == 'loc' else None)
            if n is e: break
            e = n
        return e
    def writers(self, f):
        """routines that write the member f, directly or not"""
        if f not in self.wf:
            r = {F.key() for F in self.P.fns.values() for i in F.ins() if i.op == 'store' and fields1(F.expr(i.a[0][1])) == f}
            st = list(r)
            while st:
                for G, i in self.callers.get(st.pop(), ()):
                    if G.key() not in r: r.add(G.key()); st.append(G.key())
            self.wf[f] = r
        return self.wf[f]
    def repeated(self, F):
        """conditions on memory tested more than once: condition -> members it reads"""
        n = {}
        for b in F.blocks:
            t = b[-1]
            if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2]:
                e, s = norm(F.expr(t.a[0]))
                if has(e, lambda y: y[0] == 'ld' and y[1][0] in ('fld', 'idx')) and not has(e, lambda y: y[0] in ('call', '?', 'loc')): n[e] = n.get(e, 0) + 1
        out = {}
        for e, k in n.items():
            fs = set()
            has(e, lambda y: fs.add(fields1(y[1])) if y[0] == 'ld' else None)
            if k > 1 and ('struct.MMG5_Mesh', 'point') not in fs: out[e] = fs - {None}
        return out
    def facts(self, F, split=False):
        """known-clear bits before every store and call; split: separately for the outcomes of conditions that are tested again"""
        if (F.key(), split) in self.memo: return self.memo[F.key(), split]
        conds = self.repeated(F) if split else {}
        state = {0: {frozenset(): {}}}; work = [0]; at = {}
        while work:
            b = min(work); work.remove(b)
            ds = {}
            for a, st in state[b].items():
                a, st = self.body(F, b, dict(st), a, conds, None)
                put(ds, a, st)
            t = F.blocks[b][-1]
            for s in dict.fromkeys(F.succs[b]):
                os_ = {}
                for a, st in ds.items():
                    r = self.edge(F, b, t, s, dict(st), a, conds)
                    if r: put(os_, *r)
                if not os_: continue
                if s not in state: state[s] = os_; work.append(s)
                else:
                    d = dict(state[s])
                    for a, st in os_.items(): put(d, a, st)
                    if len(d) > 200:
                        z = {}
                        for st in d.values(): put(z, frozenset(), st)
                        d = z
                    if d != state[s]:
                        state[s] = d
                        if s not in work: work.append(s)
        for b, dd in state.items():
            for a, st in dd.items(): self.body(F, b, dict(st), a, conds, at)
        self.memo[F.key(), split] = at
        return at
    def body(self, F, b, st, a, conds, at):
        def keep(i): 
            if at is not None: at[i.id] = meet(at[i.id], st) if i.id in at else dict(st)
        for i in F.blocks[b]:
            if i.op == 'phi':
                x = mk('phi', i.id)
                for k in [k for k in st if has(k, lambda z: z == x)]: st.pop(k)
                if a: a = frozenset(y for y in a if not has(y[0], lambda z: z == x))
            elif i.op in ('call', 'invoke'):
                keep(i)
                if any(t.key() in self.wr for t in self.P.targets(F, i)):
                    ok = self.refusing(F, i); st = {mk('pend', i.id, k): v for k, v in st.items() if ok and k[0] != 'pend'}
                elif not (F.callee(i) or '').startswith('llvm.'):
                    # locals whose address is handed over
                    for v in i.a[1]:
                        p = F.expr(v)
                        if p[0] == 'loc':
                            for k in [k for k in st if has(k, lambda z: z == mk('ld', p))]: st.pop(k)
                if a:
                    ks = [t.key() for t in self.P.targets(F, i)]
                    a = frozenset(y for y in a if not any(k in self.writers(f) for f in conds[y[0]] for k in ks))
            elif i.op == 'store':
                keep(i)
                if self.disturbs(F, i): st = {}
                p = F.expr(i.a[0][1])
                if p[0] == 'loc' or p[0] == 'idx' and p[1][0] == 'loc':
                    for k in [k for k in st if has(k, lambda z: z == mk('ld', p))]: st.pop(k)
                if a: f = fields1(p); a = frozenset(y for y in a if f not in conds[y[0]])
        return a, st
    def edge(self, F, b, t, s, o, a, conds):
        if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2]:
            if self.excluded(F, t, s, b): return None
            truth = s == t.a[1]; e = F.expr(t.a[0])
            if e[0] == 'c': return (a, o) if bool(e[1]) == truth else None
            c, sg = norm(e)
            if c in conds:
                if (c, truth != sg) in a: return None
                a = a | {(c, truth == sg)}
            if e[0] == 'cmp' and e[2][0] == 'call' and e[3] == ('c', 0) and (e[1] == 'eq') == truth and e[1] in ('eq', 'ne'):
                for k in [k for k in o if k[0] == 'pend' and k[1] == e[2][2]]: o[k[2]] = o.pop(k)
            for k, m in self.learn2(F, t.a[0], truth, b): k = self.canon(F, k); o[k] = o.get(k, 0) | m | (SAFE if m & (CRN | BDY | SAFE) else 0)
            for k in self.same(F, t, truth): k = self.canon(F, k); o[k] = o.get(k, 0) | NEW
        if t.op == 'switch':
            x = self.bits(F, F.expr(t.a[0])); v = [k for k, y in t.a[2] if y == s]
            if x and len(v) == 1 and s != t.a[1]: o[x[0]] = o.get(x[0], 0) | (x[1] & ~v[0] & ALL)
        return a, o
    def refusing(self, F, i):
        """the routine called gives back 0 only if it changed neither marks nor connectivity"""
        for t in self.P.targets(F, i):
            if t.key() in self.quiet:
                if not self.quiet[t.key()]: return False
                continue
            self.quiet[t.key()] = False
            ds = [j for j in t.ins() if j.op == 'store' and self.disturbs(t, j) or j.op in ('call', 'invoke') and any(u.key() in self.wr for u in self.P.targets(t, j))]
            after = set()
            for d in ds: after |= t.reachable(d.bb)
            def zero(v, bb, seen):
                if isinstance(v, dict): return v.get('i') == 0 and bb in after
                e = t.expr(v)
                if e[0] == 'phi':
                    j = t.by_id[e[1]]
                    if j.id in seen: return False
                    seen.add(j.id)
                    return any(zero(x, p, seen) for x, p in j.a[0])
                if e[0] == 'ld' and e[1][0] == 'idx' and e[1][1][0] == 'fld' and e[1][1][3] == 'v': return False      # a vertex number
                return bb in after
            ok = True
            for r in t.ins():
                if r.op == 'ret' and r.a and r.a[0] != []:
                    v = r.a[0][0] if isinstance(r.a[0], list) else r.a[0]
                    if zero(v, r.bb, set()): ok = False
            self.quiet[t.key()] = ok
            if not ok: return False
        return True
    def excluded(self, F, t, s, b):
        """the edge contradicts a comparison of the same value with a constant that leads here"""
        e = F.expr(t.a[0])
        if e[0] != 'cmp' or e[3][0] != 'c' or e[2][0] not in ('call', 'arg', 'phi'): return False
        def rng(e, truth):
            op, k = e[1], e[3][1]
            if not truth: op = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'eq': 'ne', 'ne': 'eq'}.get(op)
            return {'slt': (-1e18, k - 1), 'sle': (-1e18, k), 'sgt': (k + 1, 1e18), 'sge': (k, 1e18), 'eq': (k, k)}.get(op, (-1e18, 1e18))
        lo, hi = rng(e, s == t.a[1]); d = b
        for _ in range(40):
            n = F.idom.get(d)
            if n is None or n == d: return False
            u = F.blocks[n][-1]
            if u.op == 'br' and u.a[0] is not None and u.a[1] != u.a[2]:
                x = F.expr(u.a[0])
                if x[0] == 'cmp' and x[2] == e[2] and x[3][0] == 'c':
                    for w in (u.a[1], u.a[2]):
                        if F.preds[w] == [n] and F.dominates(w, b):
                            a, z = rng(x, w == u.a[1]); lo, hi = max(lo, a), min(hi, z)
                            if lo > hi: return True
            d = n
        return False
    def predicate(self, F, i, truth, depth=0):
        """what the outcome (0 or not) of a call of a small test routine says about the marks"""
        ts = self.P.targets(F, i)
        if len(ts) != 1 or depth > 2 or ts[0].key() in self.wr: return []
        t = ts[0]; args = [F.expr(a) for a in i.a[1]]
        if len(t.blocks) > 16 or t.key() == F.key(): return []
        def here(v): return rewrite(t.expr(v), lambda y: (args[y[1]] if y[1] < len(args) else None) if y[0] == 'arg' else None)
        outs = []
        def walk(b, prev, acc, env, seen):
            if b in seen or len(outs) > 60: raise ValueError
            env = dict(env)
            for j in t.blocks[b]:
                if j.op == 'phi':
                    for v, p in j.a[0]:
                        if p == prev: env[j.id] = v
            def val(v):
                while isinstance(v, int) and v in env: v = env[v]
                return v
            def cond(v, tr):
                v = val(v)
                if isinstance(v, dict): return [] if bool(v.get('i', 0)) == tr else None
                j = t.by_id.get(v)
                if j is not None and j.op in ('call', 'invoke'): return []
                if has(t.expr(v), lambda y: y[0] in ('phi', 'loc', 'call', 'lv', '?', 'cyc')): return []
                e = here(v)
                if e[0] not in ('cmp', 'xor'): e = mk('cmp', 'ne', e, mk('c', 0))
                elif e[0] == 'cmp' and e[2][0] == 'cmp' and e[3] == ('c', 0) and e[1] in ('ne', 'eq'): tr = tr == (e[1] == 'ne'); e = e[2]
                return self.learn(F, e, tr)
            x = t.blocks[b][-1]
            if x.op == 'ret':
                if not x.a or not x.a[0]: raise ValueError
                v = x.a[0][0] if isinstance(x.a[0], list) else x.a[0]
                w = val(v)
                if isinstance(w, int) and t.by_id.get(w) is not None and t.by_id[w].op == 'zext': w = val(t.by_id[w].a[0][0] if isinstance(t.by_id[w].a[0], list) else t.by_id[w].a[0])
                k = cond(w, truth)
                if k is not None: outs.append(acc + k)
                return
            if x.op != 'br': raise ValueError
            if x.a[0] is None: return walk(x.a[1], b, acc, env, seen | {b})
            for n, tr in ((x.a[1], True), (x.a[2], False)):
                k = cond(x.a[0], tr)
                if k is not None: walk(n, b, acc + k, env, seen | {b})
        try: walk(0, None, [], {}, frozenset())
        except ValueError: return []
        res = None
        for o in outs:
            d = {}
            for k, m in o: d[k] = d.get(k, 0) | m | (SAFE if m & (CRN | BDY) else 0)
            res = d if res is None else meet(res, d)
        return list((res or {}).items())
    def learn2(self, F, v, truth, b): return list(self.known(F, F.expr(v), truth, 0).items())
    def known(self, F, e, truth, depth):
        """what the truth of a condition says: also conditions kept in a variable, selected or negated"""
        if depth > 8: return {}
        if e[0] == 'cmp' and e[1] in ('eq', 'ne') and e[3] == ('c', 0) and e[2][0] in ('phi', 'sel', 'xor', 'cmp', 'call'): return self.known(F, e[2], truth == (e[1] == 'ne'), depth + 1)
        if e[0] == 'xor' and len(e) == 3 and ('c', 1) in e[1:]: return self.known(F, [x for x in e[1:] if x != ('c', 1)][0], not truth, depth + 1)
        if e[0] == 'call': return dict(self.predicate(F, F.by_id[e[2]], truth)) if e[2] in F.by_id else {}
        d = {}
        def add(ks):
            for k, m in ks: d[k] = d.get(k, 0) | m | (SAFE if m & (CRN | BDY | SAFE) else 0)
        if e[0] == 'sel':
            x, y = e[2], e[3]; res = None
            for z, t in ((x, True), (y, False)):
                if z[0] == 'c' and bool(z[1]) != truth: continue
                d = {}; add(self.known(F, e[1], t, depth + 1).items())
                if z[0] != 'c': add(self.known(F, z, truth, depth + 1).items())
                res = d if res is None else meet(res, d)
            return res or {}
        if e[0] == 'phi':
            i = F.by_id[e[1]]
            if any(F.dominates(i.bb, p) for x, p in i.a[0]): return {}
            res = None
            for x, p in i.a[0]:
                if isinstance(x, dict) and 'i' in x:
                    if bool(x['i']) != truth: continue
                    d = {}
                else: d = {}; add(self.known(F, F.expr(x), truth, depth + 1).items())
                if not F.dominates(p, i.bb) or len(set(F.succs[p])) > 1:
                    t = F.blocks[p][-1]
                    if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2]: add(self.known(F, F.expr(t.a[0]), i.bb == t.a[1], depth + 1).items())
                while not F.dominates(p, i.bb) and len(F.preds[p]) == 1:
                    q = F.preds[p][0]; t = F.blocks[q][-1]
                    if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2]: add(self.known(F, F.expr(t.a[0]), p == t.a[1], depth + 1).items())
                    p = q
                res = d if res is None else meet(res, d)
            return res or {}
        add(self.learn(F, e, truth))
        return d
    def equal(self, F, a, b):
        """two vertex expressions that differ in a local index only are the same for all values of the small variables"""
        if not (isentity(a) and isentity(b) and a[1] == b[1] and a[2][0] == b[2][0] == 'ld'): return False
        x, y = a[2][1], b[2][1]
        if x[0] != 'idx' or y[0] != 'idx' or x[1] != y[1]: return False
        return Finite(self.P, F).same(x[2], y[2])
    # ---------------------------------------------------------------- lists
    def producers(self, F, lst, depth=0):
        """(call, start, local index) of the neighbourhoods built in the list lst (an expression) in F"""
        out = []
        for i in F.ins():
            if i.op not in ('call', 'invoke'): continue
            for t in self.P.targets(F, i):
                for n, a in enumerate(i.a[1]):
                    if base0(F.expr(a)) != lst: continue
                    if t.name in BALL:
                        s, l, ls = BALL[t.name]
                        if n in ls: out.append((i, F.expr(i.a[1][s]), F.expr(i.a[1][l])))
                    elif depth < 2:
                        args = [F.expr(x) for x in i.a[1]]
                        for j, s, l in self.producers(t, mk('arg', n), depth + 1):
                            s2, l2 = sub(s, args), sub(l, args)
                            if s2 is not None and l2 is not None: out.append((i, s2, l2))
                            else: out.append((i, None, None))
        return out

def base0(e):
    while e[0] == 'idx' and e[2] == ('c', 0): e = e[1]
    return e

class Finite:
    """evaluates local indices taken from the constant tables for every value of the variables they are computed from"""
    def __init__(self, P, F): self.P = P; self.F = F
    def free(self, e, out):
        if e[0] == 'arg': out.add(e)
        elif e[0] == 'phi':
            i = self.F.by_id[e[1]]
            if any(self.F.dominates(i.bb, p) for v, p in i.a[0]) or len(i.a[0]) != 2: out.add(e)
            else:
                for v, p in i.a[0]: self.free(self.F.expr(v), out)
                c = self.cond(i)
                if c is None: out.add(mk('?', e[1]))
                else: self.free(c[0], out)
        elif e[0] == 'ld' and not self.table(e): out.add(e)
        elif e[0] == 'call': out.add(mk('?', 0))
        else:
            for z in e[1:]:
                if not isinstance(z, (int, str, float)): self.free(z, out)
    def table(self, e):
        x = e[1]
        while x[0] == 'idx': x = x[1]
        return x[0] == 'g'
    def cond(self, i):
        F = self.F; d = F.idom[i.bb]
        t = F.blocks[d][-1]
        if t.op != 'br' or t.a[0] is None: return None
        r = {}
        for v, p in i.a[0]:
            for s, tr in ((t.a[1], True), (t.a[2], False)):
                if (p == d and s == i.bb) or (p != d and s != i.bb and F.dominates(s, p)): r[tr] = v
        return (F.expr(t.a[0]), r) if len(r) == 2 else None
    def ev(self, e, env):
        if e in env: return env[e]
        if e[0] == 'c': return e[1]
        if e[0] == 'phi':
            c = self.cond(self.F.by_id[e[1]])
            if c is None: return None
            k = self.ev(c[0], env)
            return None if k is None else self.ev(self.F.expr(c[1][bool(k)]), env)
        if e[0] == 'ld' and self.table(e):
            ix = []; x = e[1]
            while x[0] == 'idx': ix.append(self.ev(x[2], env)); x = x[1]
            g = self.P.globals.get((self.F.unit, x[1]))
            v = const(g)
            if v is None or None in ix: return None
            for k in reversed(ix):
                if not isinstance(v, list) or not 0 <= k < len(v): return None
                v = v[k]
            return v if isinstance(v, int) else None
        if e[0] == 'cmp':
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            if a is None or b is None: return None
            return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}.get(e[1])
        if e[0] in ('add', 'mul', 'sub'):
            vs = [self.ev(z, env) for z in e[1:]]
            if None in vs: return None
            r = vs[0]
            for v in vs[1:]: r = r + v if e[0] == 'add' else r * v if e[0] == 'mul' else r - v
            return r
        return None
    def same(self, x, y):
        fr = set(); self.free(x, fr); self.free(y, fr)
        if any(f[0] == '?' for f in fr) or len(fr) > 3 or not fr: return False
        import itertools
        some = False
        for vs in itertools.product(range(4), repeat=len(fr)):
            env = dict(zip(sorted(fr), vs)); a, b = self.ev(x, env), self.ev(y, env)
            if a is None or b is None: continue           # outside the tables
            if a != b: return False
            some = True
        return some

def const(g):
    if g is None or not g.get('const'): return None
    from . import a26
    return a26.signed(a26.table(g))

def sub(e, args):
    bad = []
    def f(x):
        if x[0] == 'arg':
            if x[1] < len(args): return args[x[1]]
            bad.append(x)
        if x[0] in ('loc', 'phi', 'call', 'lv', '?', 'cyc'): bad.append(x); return x
        return None
    r = rewrite(e, f)
    return None if bad else r

def listvertex(F, p):
    """(list, entity array element, connectivity address) if p is the vertex designated by an entry of a list: point[entity[list[x]/d].v[list[x]%d]]; the element and the
    local index may be variables that run through the list"""
    if not isentity(p) or p[2][0] != 'ld': return None
    a = p[2][1]
    if a[0] != 'idx' or a[1][0] != 'fld' or a[1][3] != 'v': return None
    els = [x for x in lastturn(F, a[1][1]) if x[0] not in ('null', 'k')]; ixs = [x for x in lastturn(F, a[2]) if x[0] not in ('c', 'k')]
    if not els or not ixs: return None
    found = set()
    for el in els:
        if el[0] != 'idx' or el[2][0] not in ('sdiv', 'udiv') or el[2][1][0] != 'ld': return None
        found.add((el[2][1][1], el[2][2]))
    for i in ixs:
        if i[0] not in ('srem', 'urem') or i[1][0] != 'ld': return None
        found.add((i[1][1], i[2]))
    ls = set()
    for l, d in found:
        while l[0] == 'idx': l = l[1]
        ls.add((l, d))
    if len(ls) != 1: return None
    return ls.pop()[0], els[0], a

def run(c):
    P = c.prog('ndebug'); M = Marks(c, P)
    c.floor('places that move or remove an existing vertex', 150); c.floor('obligations discharged', 35)
    c.rule(__doc__)
    api = public()
    # routines called only in a configuration that is not built here (elasticity) count as called
    text = '\n'.join(re.sub(r'/\*.*?\*/|//[^\n]*', '', open(f, errors='replace').read(), flags=re.S) for f in sorted(glob.glob(os.path.join(REPO, 'src', '*', '*.c'))))
    once = {}
    for n in re.findall(r'\b(\w+)\s*\(', text): once[n] = once.get(n, 0) + 1
    live = P.reach([F.key() for F in P.fns.values() if F.name in api or once.get(F.name, 0) > 1 and F.key() not in M.callers])
    todo = []; seen = set()
    def oblige(F, i, p, how, trail): todo.append((F, i, p, how, trail))
    for F in sorted(P.fns.values(), key=lambda f: f.key()):
        if OUT.search(F.name) or F.key() not in live or a05.is_fortran_unit(F.unit): continue
        for i in F.ins():
            if i.op == 'store':
                p = pnt(F, F.expr(i.a[0][1]))
                v = F.expr(i.a[0][1])
                if p is None and v[0] in ('idx',) and isentity(v) and v[1][1][3] == 'point' and i.a[1] == 'double': p = v
                if p is None and v[0] == 'ld' and v[1][0] == 'fld' and v[1][3] == 'point': continue
                if p is not None: oblige(F, i, p, 'moved', ())
            elif i.op == 'call' and re.match(r'MMG(2D|3D|S|5)_delPt$', F.callee(i) or ''):
                m = F.expr(i.a[1][0]); v = F.expr(i.a[1][1])
                oblige(F, i, mk('idx', mk('ld', mk('fld', m, 'struct.MMG5_Mesh', 'point')), v), 'removed', ())
            elif i.op == 'call' and (F.callee(i) or '').startswith('llvm.memcpy'):
                p = pnt(F, F.expr(i.a[1][0]))
                if p is not None: oblige(F, i, p, 'moved', ())
    rep = set()
    while todo:
        F, i, p, how, trail = todo.pop(0)
        k = (F.key(), i.id, p, how)
        if k in seen: continue
        seen.add(k)
        if len(trail) > 6: raise Broken('%s: obligation handed on too far' % F.name)
        site = trail[0] if trail else i
        def done(why): c.ob(why, '%s: vertex %s in %s: %s' % (i.loc(), how, F.name, pp(F, p)[:80]))
        st = M.facts(F).get(i.id, {})
        if not trail: c.ob('places that move or remove an existing vertex', '%s in %s' % (i.loc(), F.name))
        lv = listvertex(F, p)
        cands = [p]
        pr = []
        if lv:
            pr = [(j, s, l) for j, s, l in M.producers(F, lv[0]) if F.reaches(j, i)] if hasattr(F, 'reaches') else M.producers(F, lv[0])
            cands = []
            for j, s, l in pr:
                if s is None: cands.append(None); continue
                el = mk('idx', lv[1][1], s)
                cands.append(mk('idx', p[1], mk('ld', mk('idx', mk('fld', el, lv[2][1][2], 'v'), l))))
            if not pr and lv[0][0] == 'arg': cands = [p]
            elif not pr: c.violation('%s/list' % F.name, i.loc(), 'the list naming the vertex that is %s is filled by no neighbourhood routine: %s' % (how, pp(F, p))); continue
        for q in dict.fromkeys(cands):
            if q is not None: q = M.canon(F, q)
            z = st.get(q, 0) if q is not None else 0
            if q is not None and not z: z = max([m for k, m in st.items() if M.equal(F, k, q)], default=0)
            if q is not None and not (z & NEW or z & REQ and z & SAFE):
                z2 = M.facts(F, True).get(i.id, {}).get(q, 0)
                if z2 & (NEW | REQ): z = z2
            if z & NEW or z & REQ and z & SAFE: done('obligations discharged'); continue
            if q is not None and q[0] == 'ld' and q[1][0] == 'fld' and q[1][3] == 'point': continue         # the scratch vertex
            if q is not None and isentity(q):
                x = index(q)
                if x == ('c', 0): continue                                  # the scratch vertex
                if x[0] == 'call' and re.search(r'newPt|chkspl|hashGet', x[1] or ''): continue     # a new vertex
                if x[0] == 'call':
                    ts = [t for t in P.targets(F, F.by_id[x[2]])]
                    for t in ts:
                        # the vertex a routine gives back
                        args = [F.expr(a) for a in F.by_id[x[2]].a[1]]
                        for r in [j for j in t.ins() if j.op == 'ret' and j.a]:
                            v = r.a[0][0] if isinstance(r.a[0], list) else r.a[0]
                            for leaf in leaves(t, t.expr(v)):
                                if leaf[0] in ('c', 'k', 'null'): continue
                                s = sub(leaf, args)
                                if s is None: c.violation('%s/result' % F.name, i.loc(), 'the vertex that is %s is not a vertex number known here: %s' % (how, pp(t, leaf))); continue
                                todo.append((F, F.by_id[x[2]], mk('idx', q[1], s), how, trail + (i,)))
                    continue
                if x[0] == 'phi':
                    pass
            if lv and lv[0][0] == 'arg' and not pr: q = mk('idx', q[1], mk('ld', mk('idx', mk('fld', mk('idx', lv[1][1], mk('sdiv', mk('ld', lv[0]), mk('c', 3))), lv[2][1][2], 'v'), mk('srem', mk('ld', lv[0]), mk('c', 3)))))
            s = sub(q, [mk('arg', n) for n in range(F.nargs)]) if q is not None else None
            if s is not None and has(q, lambda y: y[0] == 'arg' and y[1] > 0):
                cs = [(G, j) for G, j in M.callers.get(F.key(), ()) if G.key() in live and not a05.is_fortran_unit(G.unit)]
                if cs:
                    for G, j in cs:
                        r = sub(q, [G.expr(a) for a in j.a[1]])
                        r = rewrite(q, lambda y: G.expr(j.a[1][y[1]]) if y[0] == 'arg' else None)
                        todo.append((G, j, r, how, trail + (i,)))
                    continue
            if q is not None and isentity(q) and new(F, index(q)): continue
            if q is not None and isentity(q) and index(q)[0] == 'phi' and not trail:
                cnt = counters(F, i)
                if cnt:
                    for j, x in cnt: todo.append((F, j, mk('idx', q[1], x), how, (i,)))
                    continue
            w = (F.name, how, i.loc())
            if w not in rep:
                rep.add(w)
                miss = ' and '.join(n for b, n in ((REQ, 'required'), (SAFE, 'a corner')) if not z & b)
                c.violation('%s/%s' % (F.name, how), i.loc(), 'the vertex %s may be %s although it is marked as %s%s' % (pp(F, q)[:120] if q is not None else '(unknown)', how, miss,
                    ''.join(' <- %s' % t.loc() for t in reversed(trail))))
def counters(F, i):
    """for a vertex that receives its coordinates from a local table in a loop over all vertices: the places where the function counts a contribution to a vertex
    in another local table"""
    def heap(e):
        while e[0] == 'idx': e = e[1]
        return e[0] == 'call' or e[0] == 'phi'
    v = F.expr(i.a[0][0])
    if v[0] != 'ld' or v[1][0] != 'idx' or not heap(v[1]): return []
    out = []
    for j in F.ins():
        if j.op != 'store': continue
        p = F.expr(j.a[0][1]); w = F.expr(j.a[0][0])
        if p[0] == 'idx' and p[1][0] in ('call', 'phi') and w[0] == 'add' and len(w) == 3 and ('c', 1) in w[1:] and mk('ld', p) in w[1:]: out.append((j, p[2]))
    return out

def lastturn(F, e):
    """values of a variable after a loop that was run at least once"""
    if e[0] == 'phi':
        i = F.by_id[e[1]]; back = [v for v, p in i.a[0] if F.dominates(i.bb, p)]
        if back: return [l for v in back for l in leaves(F, F.expr(v), {e})]
    return list(leaves(F, e))

def new(F, x, table=False):
    """the index of a vertex that was just inserted: what a table of new vertices or a new-vertex routine gives, or counted from the end"""
    ls = [l for l in leaves(F, x) if l[0] != 'c']
    def one(l):
        if l[0] == 'call': return bool(re.search(r'newPt|hashGet|chkspl', l[1] or ''))
        if l[0] == 'ld':
            y = l[1]
            while y[0] == 'idx': y = y[1]
            return y[0] in ('loc', 'arg') or y[0] == 'fld' and y[3] in ('np', 'npnil')
        if l[0] == 'add': return any(one(z) for z in l[1:])
        return False
    return bool(ls) and all(one(l) for l in ls)

def leaves(F, e, seen=None):
    seen = set() if seen is None else seen
    if e in seen: return
    seen.add(e)
    if e[0] == 'phi':
        for v, p in F.by_id[e[1]].a[0]: yield from leaves(F, F.expr(v), seen)
    elif e[0] == 'sel':
        yield from leaves(F, e[2], seen); yield from leaves(F, e[3], seen)
    else: yield e
