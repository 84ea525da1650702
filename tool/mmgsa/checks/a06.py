"""The IR of every routine compiled with assertions and with -DNDEBUG is walked in lockstep from the entry: paths that only lead to a failed assertion, and
computations and branches whose outcome affects nothing but such paths or messages, are skipped; the remaining events -- stores, calls with an effect, decisions and returns, with the
values they use, compared structurally through the two data-flow graphs (coinductively through loops) -- must be the same in the same order on
both sides."""
import re
from ..own import *
from ..effects import Effects, PRINT, MATH, ASSERT
from ..build import Broken

READONLY = {'SCOTCH_graphCheck', 'getenv'}

def flags(P):
    """static variables of a routine that are only ever set to constants, or only ever compared and printed: switches that suppress repeated messages"""
    st = {}; bad = set(); var = set()
    for F in P.fns.values():
        for i in F.ins():
            if i.op == 'store':
                v, a = i.a[0]
                if isinstance(a, dict) and 'g' in a:
                    st.setdefault(a['g'], set()).add(F.key())
                    if not (isinstance(v, dict) and 'i' in v): var.add(a['g'])
                if isinstance(v, dict) and 'g' in v: bad.add(v['g'])
            elif i.op != 'load':
                for o in operands(i):
                    if isinstance(o, dict) and 'g' in o: bad.add(o['g'])
    for F in P.fns.values():
        for i in F.ins():
            if i.op == 'load' and isinstance(i.a[0][0], dict) and i.a[0][0].get('g') in var:
                if not all(u.op == 'icmp' and isinstance(u.a[2], dict) or u.op == 'call' and F.callee(u) in PRINT for u in F.ins() if i.id in [o for o in operands(u) if isinstance(o, int)]): bad.add(i.a[0][0]['g'])
    return {g for g in st if g not in bad and '.' in g}

class Side:
    def __init__(self, P, F, E, FL, pruned=()):
        self.F = F; self.P = P; self.E = E; self.FL = FL; n = len(F.blocks)
        # blocks from which only a failed assertion is reached
        dead = {b for b in range(n) if F.blocks[b][-1].op == 'unreachable'}
        self.pruned = pruned
        ok = lambda b, s: s not in dead and (b, s) not in pruned
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if b not in dead and F.succs[b] and not any(ok(b, s) for s in F.succs[b]): dead.add(b); ch = True
        self.dead = dead
        self.succ = [[] if b in dead else [s for s in dict.fromkeys(F.succs[b]) if ok(b, s)] for b in range(n)]
        reach = set(); st = [0]
        while st:
            b = st.pop()
            if b in reach or b in dead: continue
            reach.add(b); st += self.succ[b]
        self.reach = reach
        self.pred = [[] for _ in range(n)]
        for b in reach:
            for s in self.succ[b]: self.pred[s].append(b)
        self.escaping()
        self.ev = {b: [i for i in F.blocks[b] if self.event(i)] for b in reach}
        self.ipd = self.ipdoms()
        self.after = {}
        self.cut()
    def base(self, v):
        F = self.F
        while isinstance(v, int):
            i = F.by_id.get(v)
            if i is None: return None
            if i.op == 'alloca': return v
            if i.op == 'getelementptr': v = i.a[1]
            elif i.op in CASTS: v = i.a[0][0]
            else: return None
        return None
    def escaping(self):
        self.esc = set()
        for b in self.reach:
            for i in self.F.blocks[b]:
                if i.op == 'store': os = [i.a[0][0]]
                elif i.op in ('getelementptr', 'load', 'call', 'invoke', 'icmp') or i.op in CASTS: continue
                else: os = operands(i)
                for o in os:
                    x = self.base(o)
                    if x is not None: self.esc.add(x)
    def event(self, i):
        if i.op == 'ret': return True
        if message_bit(self, i): return False
        w = self.writes(i)
        return w is None or bool(w)
    def writes(self, i):
        """None: an effect visible outside; else the set of locals it may write"""
        if i.op == 'store':
            a = i.a[0][1]
            if isinstance(a, dict) and a.get('g') in self.FL: return set()
            b = self.base(a)
            return None if b is None else {b}
        if i.op in ('call', 'invoke'):
            c = self.F.callee(i)
            if c and c.startswith('llvm.') and not c.startswith('llvm.mem'): return set()
            if c in PRINT | MATH | ASSERT | READONLY: return set()
            if c and c.startswith('llvm.mem') or c in ('sprintf', 'snprintf'):
                b = self.base(i.a[1][0]); return None if b is None else {b}
            if not self.P.targets(self.F, i): return None
            if any(e[0] not in ('io', 'flag') and e[1] not in READONLY for e in self.E.of(self.F, i)): return None
            w = {e[1] for t in self.P.targets(self.F, i) for e in self.E.summary(t) if e[0] == 'warg'}
            return {x for x in (self.base(a) for k, a in enumerate(i.a[1]) if k in w) if x is not None}
        return set()
    def initial(self, i):
        """a constant stored in a local"""
        return i.op == 'store' and isinstance(i.a[0][0], dict) and self.base(i.a[0][1]) is not None
    def writes_named(self, name):
        return any(self.F.names.get(x) == name for b in self.reach for i in self.ev[b] for x in (self.writes(i) or ()))
    def ipdoms(self):
        n = len(self.F.blocks); R = self.reach
        ex = n
        succ = {b: (self.succ[b] or [ex]) for b in R}
        rp = {ex: [b for b in R if not self.succ[b]]}
        for b in R: rp.setdefault(b, self.pred[b])
        order = []; it = [(ex, iter(rp[ex]))]; seen = {ex}
        while it:
            b, g = it[-1]
            for s in g:
                if s not in seen: seen.add(s); it.append((s, iter(rp.get(s, [])))); break
            else: order.append(b); it.pop()
        order.reverse(); num = {b: k for k, b in enumerate(order)}
        idom = {ex: ex}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [s for s in succ[b] if s in idom]
                if not ps: continue
                x = ps[0]
                for y in ps[1:]:
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                if idom.get(b) != x: idom[b] = x; ch = True
        return {b: (None if x == ex else x) for b, x in idom.items() if b != ex}
    def forward(self, b):
        """blocks reachable from the end of b"""
        if b not in self.after:
            s = set(); w = list(self.succ[b])
            while w:
                x = w.pop()
                if x in s: continue
                s.add(x); w += self.succ[x]
            self.after[b] = s
        return self.after[b]
    def cut(self):
        """drop, until nothing changes, the branches nothing depends on and the writes to locals nobody reads any more"""
        while True:
            self.skip, need = self.skips()
            gone = False
            reads = {}
            for b in self.reach:
                evs = set(i.id for i in self.ev[b])
                for i in self.F.blocks[b]:
                    if i.op == 'load' and i.id in need:
                        x = self.base(i.a[0][0])
                        if x is not None: reads.setdefault(x, []).append(i)
                    elif i.op in ('call', 'invoke') and (i.id in evs or i.id in need):
                        for a in i.a[1]:
                            x = self.base(a)
                            if x is not None: reads.setdefault(x, []).append(i)
            for b in self.reach:
                keep = []
                for i in self.ev[b]:
                    w = self.writes(i) if i.op != 'ret' else None
                    if w is None or i.id in need or any(x in self.esc for x in w) or any(r is not i and (r.bb in self.forward(b) or r.bb == b and r.pos > i.pos) for x in w for r in reads.get(x, ())): keep.append(i)
                    else: gone = True
                self.ev[b] = keep
            if not gone: return
    def skips(self):
        """branches whose whole region (up to where its sides meet) has no event and whose outcome selects no value that matters"""
        F = self.F
        region = {}
        for b in self.reach:
            if len(self.succ[b]) < 2: continue
            stop = self.ipd.get(b)
            if stop is None: continue
            seen = set(); w = list(self.succ[b]); ok = True
            while w and ok:
                x = w.pop()
                if x == stop or x in seen: continue
                seen.add(x)
                if self.ev[x]: ok = False
                w += self.succ[x]
            if ok and b in seen and self.ev[b]: ok = False
            if ok: region[b] = (stop, seen | {b})
        cand = dict(region)
        while True:
            need = set(); st = []
            for b in self.reach:
                for i in self.ev[b]: st += [o for o in operands(i) if isinstance(o, int)]
                t = F.blocks[b][-1]
                if t.op == 'ret':
                    a = t.a[0] if t.a else None
                    if isinstance(a, list): a = a[0] if a else None
                    if isinstance(a, int): st.append(a)
                if len(self.succ[b]) > 1 and b not in cand: st += [o for o in operands(t) if isinstance(o, int)]
            while st:
                v = st.pop()
                if v in need: continue
                need.add(v); i = F.by_id.get(v)
                if i is None: continue
                if i.op == 'phi': st += [x for x, q in i.a[0] if isinstance(x, int) and q in self.reach]
                else: st += [o for o in operands(i) if isinstance(o, int)]
            bad = set()
            for b, (stop, blocks) in cand.items():
                for x in blocks - {b} | {stop}:
                    for i in F.blocks[x]:
                        if i.op != 'phi': break
                        if i.id in need and len({q for v, q in i.a[0] if q in blocks}) > (0 if x != stop else 1) and len({str(v) for v, q in i.a[0] if q in blocks}) > 1: bad.add(b)
                if any(i.id in need and i.op == 'phi' for i in F.blocks[b]) and b in {s for x in blocks for s in self.succ[x]}: bad.add(b)
            if not bad: break
            for b in bad: del cand[b]
        return {b: s for b, (s, _) in cand.items()}, need
    def extra(self, v):
        i = self.F.by_id.get(v) if isinstance(v, int) else None
        if i is None or i.op != 'icmp': return False
        return any(isinstance(x, int) and x in self.F.by_id and self.F.by_id[x].op == 'call' and self.F.callee(self.F.by_id[x]) in READONLY for x in i.a[1:])
    def returns(self, b):
        seen = set()
        while b not in seen:
            seen.add(b)
            if any(i.op != 'ret' for i in self.ev[b]): return False
            if self.F.blocks[b][-1].op == 'ret': return True
            if len(self.succ[b]) != 1: return False
            b = self.succ[b][0]
        return False
    def cond(self, v):
        """(key, polarity) of a condition, as written over the values of the graph"""
        pol = True
        while isinstance(v, int):
            i = self.F.by_id.get(v)
            if i is None: break
            if i.op == 'xor' and isinstance(i.a[0][1], dict): v = i.a[0][0]; pol = not pol; continue
            if i.op in ('icmp',) and i.a[0] in ('eq', 'ne') and isinstance(i.a[2], dict) and i.a[2].get('i') == 0 or i.op == 'icmp' and i.a[0] in ('eq', 'ne') and isinstance(i.a[2], dict) and 'n' in i.a[2]:
                j = self.F.by_id.get(i.a[1]) if isinstance(i.a[1], int) else None
                if j is not None and j.op == 'zext' and i.a[0] == 'ne': v = j.a[0][0]; continue
                return ('z', str(i.a[1])), pol == (i.a[0] == 'eq')
            if i.op == 'icmp': return (i.a[0], str(i.a[1]), str(i.a[2])), pol
            break
        return ('v', str(v)), pol
    def advance(self, b):
        """tokens from the start of a block: events, decisions with one live side, then ('ret'|'branch'|'dead'|'loop', block)"""
        out = []; seen = set(); facts = {}
        while True:
            if b in seen: return out + [('loop', b)]
            seen.add(b)
            out += [('ev', i) for i in self.ev[b] if i.op != 'ret']
            t = self.F.blocks[b][-1]
            if t.op == 'ret': return out + [('ret', b)]
            s = self.succ[b]
            if len(s) == 0: return out + [('dead', b)]
            if len(s) == 1:
                if len(set(self.F.succs[b])) > 1:
                    out.append(('assume', b))
                    if t.op == 'br': k, pol = self.cond(t.a[0]); facts[k] = (s[0] == t.a[1]) == pol
                b = s[0]; continue
            if t.op == 'br' and b not in self.skip:
                k, pol = self.cond(t.a[0])
                if k in facts:
                    nb = t.a[1] if facts[k] == pol else t.a[2]
                    out.append(('implied', b, nb)); b = nb; continue
            if b in self.skip: b = self.skip[b]; continue
            if t.op == 'br' and self.extra(t.a[0]):
                # the outcome of an additional check: the side that goes on
                s = [x for x in s if not self.returns(x)]
                if len(s) == 1: b = s[0]; continue
            return out + [('branch', b)]

class Match:
    """partition refinement of the values of both sides: two values share a class when no finite unfolding tells them apart"""
    def __init__(self, A, B):
        self.side = (A, B); self.rep = ({}, {}); nodes = []
        # real variables the build without assertions leaves uninitialised on some way in
        self.undef = {str(B.F.names.get(i.id)) for i in B.F.ins() if i.op == 'phi' and i.ty == 'double' and any(isinstance(v, dict) and 'u' in v for v, q in i.a[0])}
        for n, S in enumerate(self.side): self.trivial(n, S)
        for n, S in enumerate(self.side):
            for b in S.reach:
                for i in S.F.blocks[b]:
                    if self.res(n, i.id) == i.id: nodes.append((n, i))
        col = {}
        for n, S in enumerate(self.side):
            for a in range(S.F.nargs): col[(n, a)] = ('arg', a)
        self.col = col
        keys = {}
        for n, i in nodes: col[(n, i.id)] = 0
        # the graph: per node (label, children, unordered)
        G = []
        for n, i in nodes:
            F = self.side[n].F
            if i.op == 'alloca': G.append(((n, i.id), ('alloca', str(F.names.get(i.id))), [], False)); continue
            if i.op == 'phi':
                ch = {str(self.child(n, v)): self.child(n, v) for v in self.incoming(n, i)}
                G.append(((n, i.id), ('phi', str(F.names.get(i.id))), list(ch.values()), True)); continue
            lab = [i.op, str(i.ty)]; ops = operands(i)
            if i.op in ('icmp', 'fcmp', 'getelementptr'): lab.append(str(i.a[0]))
            if i.op in ('call', 'invoke'):
                f = F.callee(i); lab.append(f or '*')
                if f: ops = i.a[1]
            if i.op == 'getelementptr': lab.append(str(len(ops)))
            G.append(((n, i.id), tuple(lab), [self.child(n, v) for v in ops], False))
        cnt = 0
        for rnd in range(400):
            new = {}; tab = {}
            for k, lab, ch, un in G:
                cs = [c if c[0] == 'const' else ('v', col.get(c[1], c[1])) for c in ch]
                sig = (lab, frozenset(cs) if un else tuple(cs), col[k])
                new[k] = tab.setdefault(sig, len(tab))
            col.update(new)
            if len(tab) == cnt: break
            cnt = len(tab)
    def incoming(self, n, i):
        S = self.side[n]; d = n == 0 and i.ty == 'double' and str(S.F.names.get(i.id)) in self.undef
        return [v for v, q in i.a[0] if q in S.reach and not (isinstance(v, dict) and ('u' in v or d and v.get('f') in ('0', '0.0')))]
    def trivial(self, n, S):
        rep = self.rep[n]; ch = True
        phis = [i for b in S.reach for i in S.F.blocks[b] if i.op == 'phi']
        while ch:
            ch = False
            for i in phis:
                if i.id in rep: continue
                vs = {str(v): v for v in (self.res(n, v) for v in self.incoming(n, i)) if v != i.id}
                if len(vs) == 1: rep[i.id] = list(vs.values())[0]; ch = True
    def res(self, n, v):
        while isinstance(v, int) and v in self.rep[n]: v = self.rep[n][v]
        return v
    def child(self, n, v):
        v = self.res(n, v)
        if v is None: return ('const', None)
        if isinstance(v, dict): return ('const', self.const(v))
        return ('v', (n, v))
    def eq(self, a, b):
        x, y = self.child(0, a), self.child(1, b)
        if x[0] == 'const' or y[0] == 'const': return x == y
        return self.col.get(x[1], x) == self.col.get(y[1], y)
    def color(self, n, v):
        x = self.child(n, v)
        return x if x[0] == 'const' else self.col.get(x[1], x)
    def const(self, v):
        if 'u' in v: return ('u',)
        if 's' in v: return ('s',)
        if 'g' in v and ('.str' in v['g'] or '__func__' in v['g'] or '__PRETTY' in v['g']): return ('s',)
        if 'ge' in v and '.str' in str(v): return ('s', str(v['ge'][2]))
        return tuple(sorted((k, str(x)) for k, x in v.items()))

_bits = {}
def message_bit(A, i):
    """the event sets a bit of the local status the routine returns, and no caller uses that bit but for messages"""
    F = A.F
    if i.op != 'store' or not isinstance(i.a[0][0], int): return False
    j = F.by_id.get(i.a[0][0]); x = A.base(i.a[0][1])
    if j is None or j.op != 'or' or x is None or not isinstance(j.a[0][1], dict) or 'i' not in j.a[0][1]: return False
    l = F.by_id.get(j.a[0][0]) if isinstance(j.a[0][0], int) else None
    if l is None or l.op != 'load' or A.base(l.a[0][0]) != x: return False
    if (F.key(), id(A.P)) in _bits.setdefault('memo', {}).setdefault(i.id, {}): return _bits['memo'][i.id][F.key(), id(A.P)]
    memo = _bits['memo'][i.id]; memo[F.key(), id(A.P)] = False
    memo[F.key(), id(A.P)] = r = unused_bit(A, F, j.a[0][1]['i'])
    return r

def unused_bit(A, F, bit):
    n = 0
    for G in A.P.fns.values():
        cs = [k for k in G.calls(F.name)]
        if not cs: continue
        S = Side(A.P, G, A.E, A.FL)
        need = S.skips()[1]
        for k in cs:
            n += 1; w = [k.id]; seen = set()
            while w:
                v = w.pop()
                if v in seen: continue
                seen.add(v)
                for u in G.ins():
                    if v not in [o for o in operands(u) if isinstance(o, int)]: continue
                    if u.op == 'phi' or u.op in CASTS: w.append(u.id)
                    elif u.op == 'and' and isinstance(u.a[0][1], dict): 
                        if u.a[0][1]['i'] & bit and u.id in need: return False
                    elif u.op == 'icmp' and isinstance(u.a[2], dict) and u.a[2].get('i') == -1: pass
                    else: return False
    return n > 0

def paths(S, n, M, b, limit=64):
    """the paths from a block to a return, as (decisions {condition: side}, events, value returned with the phis resolved), None when there is a loop or too many"""
    out = []
    def rv(v, env):
        while isinstance(v, int) and v in env: v = env[v]
        return v
    def key(v):
        """a condition over the classes of values: (class, constant) for an equality"""
        k, pol = S.cond(v)
        x = S.F.by_id.get(v) if isinstance(v, int) else None
        while x is not None and x.op == 'xor': x = S.F.by_id.get(x.a[0][0]) if isinstance(x.a[0][0], int) else None
        if k[0] == 'z': return ('is', str(M.color(n, int(k[1]) if k[1].isdigit() else None)), '0'), pol
        if x is not None and x.op == 'icmp' and x.a[0] in ('eq', 'ne') and isinstance(x.a[2], dict) and 'i' in x.a[2]:
            return ('is', str(M.color(n, x.a[1])), str(x.a[2]['i'])), (x.a[0] == 'eq') == (pol == (k[0] == x.a[0]))
        return ('v', str(M.color(n, v))), True
    def go(b, prev, env, dec, evs, on):
        if b in on or len(out) > limit: return False
        env = dict(env)
        new = {}
        for i in S.F.blocks[b]:
            if i.op != 'phi': break
            if prev is None: continue
            for v, q in i.a[0]:
                if q == prev: new[i.id] = rv(v, env)
        env.update(new)
        evs = evs + [i for i in S.ev[b] if i.op != 'ret']
        t = S.F.blocks[b][-1]
        if t.op == 'ret':
            a = t.a[0] if t.a else None
            a = a[0] if isinstance(a, list) and a else a
            out.append((dec, evs, rv(a, env))); return True
        ss = S.succ[b]
        if t.op != 'br' or t.a[0] is None or t.a[1] == t.a[2]:
            return t.op == 'br' and all(go(x, b, env, dec, evs, on | {b}) for x in ss)
        k, pol = key(t.a[0])
        for x in ss:
            side = (x == t.a[1]) == pol
            if dec.get(k, side) != side: continue
            if side and k[0] == 'is' and any(d[0] == 'is' and d[1] == k[1] and d[2] != k[2] and y for d, y in dec.items()): continue
            if not go(x, b, env, {**dec, k: side}, evs, on | {b}): return False
        return True
    return out if go(b, None, {}, {}, [], frozenset()) and len(out) <= limit else None

def follows(d, e):
    """the decisions of the path d imply those of e"""
    for k, s in e.items():
        if k in d:
            if d[k] != s: return False
        elif k[0] == 'is' and not s and any(x[0] == 'is' and x[1] == k[1] and x[2] != k[2] and y for x, y in d.items()): pass
        else: return False
    return True

def bypaths(A, B, M, a, b):
    """path by path: the decisions, events and results of the two builds from a pair of places"""
    p, q = paths(A, 0, M, a), paths(B, 1, M, b)
    if not p or not q: return False
    for d, e, v in p:
        if isinstance(v, dict) and 'u' in v: continue   # a path on which the result was never given a value
        hit = [(d2, e2, v2) for d2, e2, v2 in q if follows(d, d2)]
        if len(hit) != 1: return False
        d2, e2, v2 = hit[0]
        if len(e) != len(e2) or any(i.op != j.op or i.op != 'store' or not all(M.eq(x, y) for x, y in zip(i.a[0], j.a[0])) for i, j in zip(e, e2)): return False
        if not (v is None and v2 is None or v == [] and v2 == []) and not M.eq(v, v2): return False
    return True

def sides(t, S):
    """the ways out of a decision: label -> block"""
    if t.op == 'switch': return [('default', t.a[1])] + [(m, x) for m, x in t.a[2]]
    return [(1, t.a[1]), (0, t.a[2])]

def compare(A, B, M):
    if 0 in A.dead: return [], 0, set()
    seen = set(); w = [(0, 0)]; up = {}; prune = set()
    while w:
        k = w.pop()
        if k in seen: continue
        seen.add(k)
        bad = step(A, B, M, k, w, up, prune)
        if not bad: continue
        # the tests may be placed differently: compare path by path, from here or from a place before
        u = k
        for _ in range(8):
            if u is None or bypaths(A, B, M, *u): break
            u = up.get(u)
        else: u = None
        if u is None: return bad, len(seen), prune
    return [], len(seen), prune

def step(A, B, M, k, w, up, prune):
    """one pair of places, to the next decision or return; what differs, if anything"""
    F, G = A.F, B.F
    while True:
        ta, tb = A.advance(k[0]), B.advance(k[1]); x = y = 0; hops = 0
        while True:
            hops += 1
            if hops > 2000: return [(F.blocks[k[0]][-1], 'the builds part here')]
            kb, vb = tb[y][:2]
            if kb in ('assume', 'implied'): y += 1; continue
            if kb == 'branch':
                # a decision one side of which only stops in the build with assertions
                t = G.blocks[vb][-1]; z = x; hit = None
                while ta[z][0] in ('assume', 'implied'):
                    s = F.blocks[ta[z][1]][-1]
                    if s.op == t.op and M.eq(s.a[0], t.a[0]) and [m for m, _ in sides(s, A)] == [m for m, _ in sides(t, B)]:
                        live = [(m, p) for m, p in sides(s, A) if p not in A.dead and (ta[z][0] == 'assume' or p == ta[z][2])]
                        hit = {q for m, p in live for l, q in sides(t, B) if l == m}; break
                    z += 1
                if hit is not None and len(hit) == 1:
                    x = z + 1; y = 0; q = hit.pop()
                    prune |= {(vb, r) for l, r in sides(t, B) if r != q}
                    if q in B.dead: return [(s, 'only the build without assertions stops here')]
                    tb = B.advance(q); continue
            ka, va = ta[x][:2]
            if ka in ('assume', 'implied'): x += 1; continue
            if ka == 'ev' and kb == 'ev' and not (A.initial(va) and not (vb.op == 'store' and M.eq(va.a[0][0], vb.a[0][0]) and M.eq(va.a[0][1], vb.a[0][1]))):
                i, j = va, vb
                if i.op != j.op or i.op in ('call', 'invoke') and F.callee(i) != G.callee(j): return [(i, 'differs between the two builds')]
                u, v = (i.a[1], j.a[1]) if i.op in ('call', 'invoke') else (i.a[0], j.a[0])
                if i.op in ('call', 'invoke') and F.callee(i) is None and not M.eq(i.a[0], j.a[0]): return [(i, 'differs between the two builds')]
                if len(u) != len(v) or not all(M.eq(p, q) for p, q in zip(u, v)): return [(i, 'uses different values in the two builds')]
                x += 1; y += 1; continue
            if ka == 'ev' and A.initial(va) and B.writes_named(F.names.get(A.base(va.a[0][1]))):
                x += 1; continue
            if ka == 'ev' or kb == 'ev':
                return [(va if ka == 'ev' else vb, 'only in the build %s assertions, or elsewhere' % ('with' if ka == 'ev' else 'without'))]
            s = F.blocks[va][-1]; t = G.blocks[vb][-1]
            if ka != kb: return [(s, 'the builds part here (%s / %s)' % (ka, kb))]
            if ka == 'ret':
                u = s.a[0] if s.a else None; v = t.a[0] if t.a else None
                u = u[0] if isinstance(u, list) and u else u; v = v[0] if isinstance(v, list) and v else v
                if not (u == [] and v == [] or u is None and v is None) and not M.eq(u, v): return [(s, 'the value returned differs between the two builds')]
            elif ka == 'branch':
                if s.op != t.op or not M.eq(s.a[0], t.a[0]): return [(s, 'the decision differs between the two builds')]
                p, q = sides(s, A), sides(t, B)
                if [m for m, _ in p] != [m for m, _ in q]: return [(s, 'the decision differs between the two builds')]
                for (_, a), (_, b) in zip(p, q):
                    if a in A.dead or (va, a) in A.pruned:
                        if b not in B.dead and b not in [b2 for (_, a2), (_, b2) in zip(p, q) if a2 not in A.dead]: prune.add((vb, b))
                        continue
                    if b in B.dead: return [(s, 'only the build without assertions stops here')]
                    w.append((a, b)); up.setdefault((a, b), k)
            break
        return []

def norm(F):
    return [[(i.op, i.id, str(i.ty), re.sub(r'\.str(\.\d+)?|__PRETTY_FUNCTION__[\w.]*', 'S', str(i.a))) for i in b] for b in F.blocks]
def same(F, G): return len(F.blocks) == len(G.blocks) and norm(F) == norm(G)

def run(c):
    c.rule(__doc__)
    PA, PB = c.prog('dbg'), c.prog('ndebug'); FL = flags(PA) | flags(PB); EA, EB = Effects(PA, FL), Effects(PB, FL)
    if not FL: raise Broken('no message switches found')
    asserts = 0
    for k, F in sorted(PA.fns.items()):
        G = PB.fns.get(k)
        if G is None: c.violation(k + ':missing', F.loc(), '%s exists only in the build with assertions' % F.name); continue
        if same(F, G): c.ob('routines compared'); c.count('routines with the same code in both builds'); asserts += sum(1 for _ in F.calls('__assert_fail')); continue
        A, B = Side(PA, F, EA, FL), Side(PB, G, EB, FL)
        bad, n, prune = compare(A, B, Match(A, B))
        # what only runs after a failed assertion is left out of the build without assertions, and the comparison repeated
        done = set()
        while prune - done:
            done |= prune
            B = Side(PB, G, EB, FL, done); bad, n, prune = compare(A, B, Match(A, B))
        c.ob('routines compared', F.name); c.count('segments compared', n)
        asserts += sum(1 for _ in F.calls('__assert_fail'))
        for i, m in bad:
            what = i.op if i.op != 'call' else 'call of %s' % (i.fn.callee(i) or '*')
            c.violation('%s:%s' % (F.name, what), i.loc(), '%s: %s: %s' % (F.name, what, m))
    for k in PB.fns:
        if k not in PA.fns: c.violation(k + ':missing', PB.fns[k].loc(), '%s exists only in the build without assertions' % k)
    c.count('assertions', asserts); c.floor('assertions', 700); c.floor('routines compared', 1800)
