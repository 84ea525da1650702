"""Path-state propagation through the main routines: constants of statuses and local flags, pointers of local variables, and a small client state;
routines that matter to the client are entered, every other routine with a constant set of results is forked over them."""
from .absint import *
from .sccp import Inter
from .build import Broken

LIMIT = 60000
LAZY = ('sext', 'zext', 'trunc', 'freeze', 'icmp', 'select', 'and', 'or', 'xor', 'sub')     # values computed on demand from their operands

class Walk:
    def __init__(self, P, client):
        self.P = P; self.C = client; self.I = Inter(P, lambda F, i: None); self.deep = {}; self.steps = 0; self.live = {}
        rel = set(client.events)
        ch = True; cg = P.cg
        self.enter = set()
        while ch:
            ch = False
            for k, ts in cg.items():
                if k not in self.enter and P.fns[k].name not in rel and any(t in self.enter or P.fns[t].name in rel for t in ts): self.enter.add(k); ch = True
    def uses(self, F):
        if F.key() in self.live: return self.live[F.key()]
        at = {}
        for i in F.ins():
            for o in operands(i):
                st = [o]
                while st:
                    o = st.pop()
                    if not isinstance(o, int) or o < F.nargs or i.bb in at.get(o, ()): continue
                    at.setdefault(o, set()).add(i.bb)
                    if F.by_id[o].op in LAZY: st += operands(F.by_id[o])
        can = {}
        for v, bs in at.items():
            seen = set(bs); st = list(bs)
            d = F.by_id[v].bb if v in F.by_id else None
            while st:
                b = st.pop()
                if b == d: continue
                for p in F.preds[b]:
                    if p not in seen: seen.add(p); st.append(p)
            can[v] = seen
        self.live[F.key()] = can
        return can
    def val(self, F, env, args, v):
        """('c', n) | token | None"""
        if isinstance(v, dict):
            if 'i' in v: return ('c', v['i'])
            if 'n' in v: return ('c', 0)
            return None
        if v in env: return env[v]
        if v < F.nargs: return args.get(v, ('tok', F.name, v))
        i = F.by_id[v]
        if i.op in ('sext', 'zext', 'trunc', 'freeze'): return self.val(F, env, args, i.a[0][0])
        if i.op in ('icmp',):
            a, b = self.val(F, env, args, i.a[1]), self.val(F, env, args, i.a[2])
            if a and b and a[0] == b[0] == 'c':
                x, y = a[1], b[1]
                if i.a[0][0] == 'u': x, y = x % (1 << 64), y % (1 << 64)
                r = {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(i.a[0])
                return None if r is None else ('c', int(r))
            return None
        if i.op == 'select':
            c = self.val(F, env, args, i.a[0][0])
            if c and c[0] == 'c': return self.val(F, env, args, i.a[0][1 if c[1] else 2])
            return None
        if i.op == 'and' or i.op == 'or' or i.op == 'xor':
            a, b = self.val(F, env, args, i.a[0][0]), self.val(F, env, args, i.a[0][1])
            if a and b and a[0] == b[0] == 'c': return ('c', a[1] & b[1] if i.op == 'and' else a[1] | b[1] if i.op == 'or' else a[1] ^ b[1])
            return None
        if i.op == 'sub':
            a, b = self.val(F, env, args, i.a[0][0]), self.val(F, env, args, i.a[0][1])
            if a and b and a[0] == b[0] == 'c': return ('c', a[1] - b[1])
            return None
        if i.ty == 'ptr': return ('tok', F.name, F.expr(v))
        return None
    def run(self, F, args, state, depth=0):
        """-> set of (state, returned value)"""
        if depth > 6: raise Broken('main routine nesting')
        out = set(); can = self.uses(F)
        start = (0, state, ())
        seen = {start}; w = [start]
        while w:
            self.steps += 1
            if self.steps > LIMIT: raise Broken('too many path states in ' + F.name)
            b, st, envt = w.pop()
            for st2, env, stop in self.block(F, b, args, st, dict(envt), depth):
                if stop: continue
                t = F.blocks[b][-1]
                if t.op == 'ret':
                    v = (t.a[0][0] if t.a[0] else None) if t.a and isinstance(t.a[0], list) else (t.a[0] if t.a else None)
                    out.add((st2, self.val(F, env, args, v) if v is not None else None)); continue
                ss = F.succs[b]
                if t.op == 'br' and t.a[0] is not None:
                    v = self.val(F, env, args, t.a[0])
                    if v and v[0] == 'c': ss = [t.a[1] if v[1] else t.a[2]]
                elif t.op == 'switch':
                    v = self.val(F, env, args, t.a[0])
                    if v and v[0] == 'c': ss = [dict((k, x) for k, x in t.a[2]).get(v[1], t.a[1])]
                for n in dict.fromkeys(ss):
                    e2 = dict(env)
                    new = {}
                    for i in F.blocks[n]:
                        if i.op != 'phi': break
                        for x, p in i.a[0]:
                            if p == b: new[i.id] = self.val(F, env, args, x)
                    for k, v in new.items():
                        if v is None: e2.pop(k, None)
                        else: e2[k] = v
                    e2 = {k: v for k, v in e2.items() if n in can.get(k, ())}
                    s = (n, st2, tuple(sorted(e2.items(), key=lambda x: x[0])))
                    if s not in seen: seen.add(s); w.append(s)
        return out
    def block(self, F, b, args, st, env, depth):
        cur = [(st, env, False)]
        for i in F.blocks[b]:
            if i.op == 'phi': continue
            if i.op == 'store':
                for k, (s, e, x) in enumerate(cur):
                    cur[k] = (self.C.store(self, F, i, s, lambda v: self.val(F, e, args, v)), e, x)
            elif i.op in ('call', 'invoke'):
                nxt = []
                for s, e, x in cur:
                    V = lambda v: self.val(F, e, args, v)
                    for s2, r in self.call(F, i, s, V, depth):
                        e2 = dict(e)
                        if r is None: e2.pop(i.id, None)
                        else: e2[i.id] = r
                        nxt.append((s2, e2, x))
                cur = nxt
        return cur
    def call(self, F, i, s, V, depth):
        ts = self.P.targets(F, i)
        r = self.C.call(self, F, i, ts, s, V)
        if r is not None: return r
        out = set()
        for t in ts:
            if t.key() in self.enter:
                a = {k: V(x) for k, x in enumerate(i.a[1][:t.nargs])}
                key = (t.key(), tuple(sorted(a.items(), key=lambda x: x[0])), s)
                if key not in self.deep:
                    self.deep[key] = set()
                    self.deep[key] = self.run(t, {k: v for k, v in a.items() if v is not None}, s, depth + 1)
                out |= self.deep[key]
            else:
                S = self.I.get(t); rs = S.ret() if S and t.ret.startswith('i') else None
                if rs is None: out.add((s, None))
                else:
                    for q in rs: out.add((self.C.result(F, i, t, rs, q, s), ('c', q)))
        return out or {(s, ('tok', F.name, F.expr(i.id)) if i.ty == 'ptr' else None)}
