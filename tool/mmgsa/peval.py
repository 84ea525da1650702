"""Partial evaluation of a function for a constant argument: the blocks and edges that remain, the returned values."""
from .canon import *

def fold(e, sub):
    """value of a condition when the expressions of sub have constant values (None: unknown)"""
    if e in sub: return sub[e]
    t = e[0]
    if t == 'c': return e[1]
    if t == 'cmp':
        a, b = fold(e[2], sub), fold(e[3], sub)
        if a is None or b is None: return None
        r = {'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b, 'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}.get(e[1])
        return None if r is None else int(r)
    if t in ('and', 'or'):
        vs = [fold(x, sub) for x in e[1:]]
        if t == 'and' and 0 in vs: return 0
        if any(v is None for v in vs): return 1 if t == 'or' and 1 in vs and all(x[0] in ('cmp', 'c') for x in e[1:]) else None
        r = vs[0]
        for v in vs[1:]: r = r & v if t == 'and' else r | v
        return r
    if t == 'xor' and len(e) == 3:
        a, b = fold(e[1], sub), fold(e[2], sub)
        return None if a is None or b is None else a ^ b
    if t in ('add', 'mul', 'sub'):
        vs = [fold(x, sub) for x in e[1:]]
        if any(v is None for v in vs): return None
        r = vs[0]
        for v in vs[1:]: r = r + v if t == 'add' else r * v if t == 'mul' else r - v
        return r
    if t == 'sel':
        c = fold(e[1], sub)
        return None if c is None else fold(e[2] if c else e[3], sub)
    return None

class Spec:
    """F with some expressions fixed: reached blocks / edges"""
    def __init__(self, F, sub, dec=None):
        self.F = F; self.sub = sub; self.edges = set(); self.blocks = set()
        st = [0]
        while st:
            b = st.pop()
            if b in self.blocks: continue
            self.blocks.add(b)
            for s in self.succ(b, dec): self.edges.add((b, s)); st.append(s)
    def succ(self, b, dec=None):
        F = self.F; t = F.blocks[b][-1]
        if t.op == 'br' and t.a[0] is not None:
            v = fold(F.expr(t.a[0]), self.sub)
            if v is None and dec: v = dec(F, t)
            if v is not None: return [t.a[1] if v else t.a[2]]
        elif t.op == 'switch':
            v = fold(F.expr(t.a[0]), self.sub)
            if v is not None:
                for k, x in t.a[2]:
                    if k == v: return [x]
                return [t.a[1]]
        return list(dict.fromkeys(F.succs[b]))
    def leaves(self, v, seen=None):
        """expressions a value may have, phis restricted to the edges that remain"""
        F = self.F; seen = set() if seen is None else seen
        if isinstance(v, int) and v >= F.nargs and F.by_id[v].op == 'phi':
            if v in seen: return set()
            seen.add(v); i = F.by_id[v]
            out = set()
            for x, p in i.a[0]:
                if (p, i.bb) in self.edges: out |= self.leaves(x, seen)
            return out
        return {F.expr(v)}
    def rets(self):
        out = set()
        for b in self.blocks:
            t = self.F.blocks[b][-1]
            if t.op == 'ret' and t.a and t.a[0] is not None:
                v = t.a[0][0] if isinstance(t.a[0], list) else t.a[0]
                out |= self.leaves(v)
        return out
    def ret_from(self, a, s):
        """values returned when control takes edge (a, s)"""
        seen = set(); st = [s]; ed = {(a, s)}
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            for n in self.F.succs[b]:
                if (b, n) in self.edges: ed.add((b, n)); st.append(n)
        keep = self.edges; self.edges = ed
        try:
            out = set()
            for b in seen:
                t = self.F.blocks[b][-1]
                if t.op == 'ret' and t.a and t.a[0] is not None:
                    v = t.a[0][0] if isinstance(t.a[0], list) else t.a[0]
                    out |= self.leaves(v)
            return out
        finally: self.edges = keep
    def success_without(self, avoid, fail=lambda e: e[0] == 'c' and e[1] in (0, -1)):
        """is there a path from entry to a successful return that avoids the given blocks? -> the block of its return"""
        F = self.F
        seen = set(); st = [0]
        ed = set()
        while st:
            b = st.pop()
            if b in seen or b in avoid: continue
            seen.add(b)
            for n in self.F.succs[b]:
                if (b, n) in self.edges and n not in avoid: ed.add((b, n)); st.append(n)
        keep = self.edges; self.edges = ed
        try:
            for b in seen:
                t = F.blocks[b][-1]
                if t.op == 'ret':
                    v = t.a[0][0] if isinstance(t.a[0], list) else t.a[0]
                    if any(not fail(x) for x in self.leaves(v)): return b
        finally: self.edges = keep
        return None
