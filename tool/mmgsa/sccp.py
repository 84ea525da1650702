"""Conditional constant propagation: small sets of constants per SSA value, executable edges only, with the values some loads are known to
give and (interprocedurally) the constants a callee can return. None = any value."""
import math
from .canon import *

CAP = 6
ARITH = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
         'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
       'olt': lambda a, b: a < b, 'ole': lambda a, b: a <= b, 'ogt': lambda a, b: a > b, 'oge': lambda a, b: a >= b, 'oeq': lambda a, b: a == b, 'one': lambda a, b: a != b, 'une': lambda a, b: a != b}

class Sccp:
    def __init__(self, F, load=None, rets=None, args=None):
        """load(F, i) -> set of constants or None; rets(F, i) -> set or None; args: arg number -> set"""
        self.F = F; self.load = load or (lambda F, i: None); self.rets = rets or (lambda F, i: None)
        self.v = {k: frozenset() for k in range(F.nargs)}
        for k in range(F.nargs): self.v[k] = (args or {}).get(k)
        self.edges = set(); self.blocks = {0}
        self.solve()
    def val(self, x):
        if isinstance(x, dict):
            if 'i' in x: return frozenset([x['i']])
            if 'f' in x:
                try: return frozenset([float(x['f'])])
                except ValueError: return None
            if 'n' in x: return frozenset([0])
            return None
        return self.v.get(x, frozenset())
    def at(self, x, b):
        """values of x in block b: those that pass the comparisons on the way"""
        s = self.val(x)
        if s is None or len(s) < 2 or isinstance(x, dict): return s
        F = self.F; d = b
        while d is not None and d != 0:
            p = F.preds[d]
            if len(p) == 1:
                t = F.blocks[p[0]][-1]
                if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2] and not isinstance(t.a[0], dict) and t.a[0] >= F.nargs:
                    q = F.by_id[t.a[0]]
                    if q.op == 'icmp' and q.a[1] == x and isinstance(q.a[2], dict) and 'i' in q.a[2] and q.a[0] in CMP:
                        s = frozenset(v for v in s if bool(CMP[q.a[0]](v, q.a[2]['i'])) == (t.a[1] == d))
                elif t.op == 'switch' and t.a[0] == x:
                    if t.a[1] == d: s = s - {k for k, _ in t.a[2]}
                    else: s = s & {k for k, w in t.a[2] if w == d}
            d = F.idom[d] if isinstance(F.idom, (list, dict)) else F.idom()[d]
        return s
    def ev(self, i):
        op = i.op; a = i.a
        if op == 'phi':
            out = frozenset()
            for x, p in a[0]:
                if (p, i.bb) in self.edges:
                    s = self.val(x)
                    if s is None: return None
                    out |= s
            return out
        if op == 'load': return self.load(self.F, i)
        if op in ('call', 'invoke'): return self.rets(self.F, i)
        if op == 'select':
            c = self.val(a[0][0])
            if c is not None and not c: return frozenset()
            out = frozenset()
            for k, want in ((1, True), (2, False)):
                if c is None or any(bool(q) == want for q in c):
                    s = self.val(a[0][k])
                    if s is None: return None
                    out |= s
            return out
        if op in ('icmp', 'fcmp'):
            x, y = self.at(a[1], i.bb), self.at(a[2], i.bb)
            if x is not None and not x or y is not None and not y: return frozenset()
            f = CMP.get(a[0])
            if f is None or x is None or y is None: return frozenset([0, 1])
            return frozenset(int(f(p, q)) for p in x for q in y)
        if op in ('sext', 'zext', 'trunc', 'freeze', 'sitofp', 'uitofp', 'fpext', 'fptosi'):
            s = self.val(a[0][0])
            if s is None: return frozenset([0, 1]) if op in ('zext', 'sext') and a[0][1:] == ['i1'] else None
            if op in ('sitofp', 'uitofp'): return frozenset(float(q) for q in s)
            if op == 'fptosi': return frozenset(int(q) for q in s)
            if op == 'trunc' and i.ty.startswith('i'):
                n = int(i.ty[1:]); return frozenset(q & 1 if n == 1 else ((q + (1 << (n-1))) & ((1 << n)-1)) - (1 << (n-1)) for q in s)
            return s
        if op in ARITH:
            x, y = self.val(a[0][0]), self.val(a[0][1])
            if x is not None and not x or y is not None and not y: return frozenset()
            if op == 'and' and (x == frozenset([0]) or y == frozenset([0])): return frozenset([0])
            if op == 'mul' and (x == frozenset([0]) or y == frozenset([0])): return frozenset([0])
            if x is None or y is None: return None
            return frozenset(ARITH[op](p, q) for p in x for q in y)
        return None
    def solve(self):
        F = self.F; ch = True
        while ch:
            ch = False
            for b in sorted(self.blocks):
                for i in F.blocks[b]:
                    if i.ty == 'void' and i.op not in ('br', 'switch'): continue
                    if i.op in ('br', 'switch'):
                        for s in self.succ(b, i):
                            if (b, s) not in self.edges: self.edges.add((b, s)); self.blocks.add(s); ch = True
                        continue
                    old = self.v.get(i.id, frozenset())
                    if old is None: continue
                    n = self.ev(i)
                    if n is not None:
                        n |= old
                        if len(n) > CAP: n = None
                    if n != old: self.v[i.id] = n; ch = True
    def succ(self, b, t):
        F = self.F
        if t.op == 'br' and t.a[0] is not None:
            s = self.val(t.a[0])
            if s is None: return list(F.succs[b])
            return [t.a[1]] * any(bool(q) for q in s) + [t.a[2]] * any(not q for q in s)
        if t.op == 'switch':
            s = self.at(t.a[0], b)
            if s is None: return list(F.succs[b])
            m = dict((k, x) for k, x in t.a[2])
            return [m.get(q, t.a[1]) for q in s]
        return list(F.succs[b])
    def ret(self):
        out = frozenset()
        for b in self.blocks:
            t = self.F.blocks[b][-1]
            if t.op == 'ret' and t.a and t.a[0] is not None:
                v = t.a[0][0] if isinstance(t.a[0], list) else t.a[0]
                s = self.val(v)
                if s is None: return None
                out |= s
        return out

class Inter:
    """whole program: calls whose single callee returns few constants under the given loads"""
    def __init__(self, P, load):
        self.P = P; self.load = load; self.memo = {}; self.open = set()
    def rets(self, F, i):
        ts = self.P.targets(F, i)
        if not ts or isinstance(i.a[0], dict) and 'fn' in i.a[0] and len(ts) != 1: return None
        out = frozenset()
        for t in ts:
            s = self.get(t)
            s = None if s is None else s.ret()
            if s is None: return None
            out |= s
        return out if len(out) <= CAP else None
    def get(self, F):
        k = F.key()
        if k in self.memo: return self.memo[k]
        if k in self.open: return None
        self.open.add(k)
        r = Sccp(F, self.load, self.rets)
        self.open.discard(k)
        self.memo[k] = r
        return r
