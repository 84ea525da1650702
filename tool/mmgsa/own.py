"""Typestate of one resource (memory block or open file) at a time, along the paths of a function: untested -> null / present ->
released; aliases are registers and access paths; branch conditions tested more than once and constant phi values are
remembered, so that correlated tests do not create infeasible paths."""
from .ir import *
from .ir import operands, CASTS
from .absint import liveness
from .effects import root, PRINT, phi_leaves
from collections import deque

ALLOC = {'mymalloc', 'mycalloc', 'myrealloc', 'malloc', 'calloc', 'realloc', 'strdup', 'mystrdup'}
REALLOC = {'myrealloc', 'realloc'}
OPEN = {'fopen', 'fdopen', 'tmpfile', 'freopen', 'popen'}
FREE = {'myfree', 'free'}
CLOSE = {'fclose', 'pclose'}
WRAP = {'mymalloc', 'mycalloc', 'myrealloc', 'myfree', 'mystrdup'}
NEG = {'eq': 'ne', 'ne': 'eq', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'slt': 'sge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'ult': 'uge'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge'}

def canon_cond(e):
    """(positive condition, polarity)"""
    if e[0] == 'cmp':
        op = e[1]
        if op in ('ne', 'sle', 'sge', 'ule', 'uge') : return mk('cmp', NEG[op], e[2], e[3]), False
        return e, True
    return e, True

def cmpc(op, a, b):
    return {'eq': a == b, 'ne': a != b, 'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b}.get(op)

def loads(e, memo=None):
    """places and phis an expression depends on"""
    out = set(); st = [e]; seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, E) or x in seen: continue
        seen.add(x)
        if x[0] == 'ld': out.add(x[1])
        if x[0] in ('phi', 'call', 'lv'): out.add(x)
        st += list(x[1:])
    return out

def subst(e, args):
    """expression over the callee's arguments in terms of the caller; None if it does not translate"""
    if e[0] == 'arg': return args[e[1]] if e[1] < len(args) else None
    if e[0] in ('idx', 'fld', 'ld'):
        b = subst(e[1], args)
        if b is None: return None
        if e[0] == 'ld': return mk('ld', b)
        if e[0] == 'idx':
            if e[2] == ('c', 0) : return mk('idx', b, e[2])
            i = subst(e[2], args)
            return None if i is None else mk('idx', b, i)
        return mk('fld', b, *e[2:])
    if e[0] in ('c', 'null', 'g'): return e
    return None

def rebase(p, a, k):
    """place p of the caller, seen from a callee whose k-th argument is a"""
    if p is a: return mk('arg', k)
    if p[0] in ('fld', 'idx', 'ld'):
        b = rebase(p[1], a, k)
        if b is None or p[0] == 'idx' and p[2][0] != 'c': return None
        return mk(p[0], b, *p[2:])
    return None

class Own:
    CAP = 6000
    def __init__(self, P, null=False, after=False):
        self.null = null    # follow only the paths on which the resource is missing or not tested yet
        self.after = after  # follow a resource that has just been released
        self.bad = 'R' if after else 'UN'
        self.P = P; self._multi = {}; self._lf = {}; self._rel = {}; self._par = {}; self._frees = {}; self._outs = {}; self._busy = set()
    def multi(self, F):
        """conditions that more than one branch tests"""
        m = self._multi.get(F.key())
        if m is None:
            c = {}
            for b in F.blocks:
                t = b[-1]
                if t.op == 'br' and t.a[0] is not None:
                    e, _ = canon_cond(F.expr(t.a[0])); c[e] = c.get(e, 0) + 1
            m = self._multi[F.key()] = {e: loads(e) for e, n in c.items() if n > 1}
        return m
    def relevant(self, F):
        """(values worth remembering, conditions worth remembering): those that decide a branch one side of which releases, keeps or
        creates something or returns"""
        r = self._rel.get(F.key())
        if r is not None: return r
        ev = set()
        for k, b in enumerate(F.blocks):
            if b[-1].op in ('ret', 'unreachable'): ev.add(k); continue
            for i in b:
                if i.op in ('call', 'invoke'):
                    n = F.callee(i)
                    if n in FREE or n in CLOSE or n in ALLOC or n in OPEN: ev.add(k); break
                    if n in WRAP or n and n.startswith('llvm.'): continue
                    if any(self.releases(t) for t in self.P.targets(F, i)): ev.add(k); break
        vals = set(); conds = set(); st = []
        ipd = F.ipdom
        for k, b in enumerate(F.blocks):
            t = b[-1]
            c = t.a[0] if t.op in ('br', 'switch') and t.a else None
            if t.op == 'br' and (c is None or t.a[1] == t.a[2]): continue
            if c is None: continue
            stop = ipd.get(k); seen = set(); w = [x for x in F.succs[k] if x != stop]; hit = False
            while w:
                x = w.pop()
                if x in seen: continue
                seen.add(x)
                if x in ev: hit = True; break
                w += [y for y in F.succs[x] if y != stop]
            if hit:
                if t.op == 'br': conds.add(canon_cond(F.expr(c))[0])
                st.append(c)
        for b in F.blocks:
            if b[-1].op == 'ret' and b[-1].a:
                a = b[-1].a[0]; a = a[0] if isinstance(a, list) and a else a
                st.append(a)
        while st:
            v = st.pop()
            if not isinstance(v, int) or v in vals: continue
            vals.add(v); i = F.by_id.get(v)
            if i is None: continue
            if i.op == 'phi': st += [x for x, _ in i.a[0]]
            elif i.op in CASTS: st.append(i.a[0][0])
            elif i.op == 'icmp': st += [i.a[1], i.a[2]]
            elif i.op in ('and', 'or', 'xor', 'select'): st += [o for o in operands(i)]
        self._rel[F.key()] = (vals, conds)
        return vals, conds
    def releases(self, G):
        k = ('rel', G.key())
        if k not in self._rel:
            self._rel[k] = False
            self._rel[k] = any(True for _ in G.calls(*(FREE | CLOSE | REALLOC))) or \
                any(self.releases(t) for i in G.ins() if i.op in ('call', 'invoke') and G.callee(i) not in WRAP for t in self.P.targets(G, i))
        return self._rel[k]
    def live_facts(self, F):
        """per block: the conditions some reachable branch still tests"""
        m = self._lf.get(F.key())
        if m is None:
            multi = self.multi(F); n = len(F.blocks); m = [set() for _ in range(n)]; own = [set() for _ in range(n)]
            for k, b in enumerate(F.blocks):
                t = b[-1]
                if t.op == 'br' and t.a[0] is not None:
                    e, _ = canon_cond(F.expr(t.a[0]))
                    if e in multi: own[k].add(e)
            ch = True
            while ch:
                ch = False
                for k in range(n - 1, -1, -1):
                    x = own[k].union(*[m[s] for s in F.succs[k]])
                    if x != m[k]: m[k] = x; ch = True
            self._lf[F.key()] = m
        return m
    def entry_facts(self, F, bb):
        out = {}; b = bb; d = F.idom
        while b is not None and d.get(b) is not None and d[b] != b:
            a = d[b]
            t = F.blocks[a][-1]
            if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2]:
                for k, s in ((True, t.a[1]), (False, t.a[2])):
                    if F.dominates(s, bb) and len(F.preds[s]) == 1:
                        e, pol = canon_cond(F.expr(t.a[0])); out.setdefault(e, k == pol)
            b = a
        return out
    # ------------------------------------------------------------ exploration
    hold = frozenset()
    def explore(self, F, start=None, reg=None, places=(), status='U', alts=None, kind='mem'):
        """start: the instruction that creates the resource (None: function entry). Yields outcomes in self: list of
        ('deref', ins) / ('lost', ins) / ('ret', ins, status, escaped, value) """
        live = liveness(F); multi = self.multi(F); lf = self.live_facts(F); RV, RC = self.relevant(F)
        out = []; seen = set(); n = 0
        facts0 = frozenset((e, v) for e, v in self.entry_facts(F, start.bb).items() if e in multi) if start is not None else frozenset()
        regs0 = frozenset([reg]) if reg is not None else frozenset()
        init = []
        envs = self.entry_envs(F, start.bb) if start is not None else [{}]
        for st, env in [(st, {**e0, **e}) for st, e in (alts or [(status, {})]) for e0 in envs]:
            init.append((start.bb if start is not None else 0, start.pos + 1 if start is not None else 0, -1, st, regs0 if st != 'gone' else frozenset(), frozenset(places), facts0, frozenset(env.items()), False))
        work = [x for x in init if x[3] != 'gone']
        while work:
            b, pos, prev, st, regs, pls, facts, env, esc = work.pop()
            n += 1
            if n > self.CAP: out.append(('cap', start)); break
            blk = F.blocks[b]
            if blk[-1].op == 'unreachable' and (st == 'C' or not self.null): continue
            env = dict(env); facts = dict(facts); regs = set(regs); pls = set(pls)
            if pos == 0:
                new = {}; al = set(); ph = set()
                for i in blk:
                    if i.op != 'phi': break
                    pos += 1; ph.add(i.id)
                    for v, q in i.a[0]:
                        if q == prev:
                            if isinstance(v, dict):
                                if 'i' in v: new[i.id] = v['i']
                                elif 'n' in v: new[i.id] = 'null'
                            else:
                                if v in regs: al.add(i.id)
                                if v in env: new[i.id] = env[v]
                L = live[b]
                if ph:
                    for p in ph: env.pop(p, None)
                    regs -= ph
                    if self.after and pls: pls = {p for p in pls if not any(x[0] == 'phi' and x[1] in ph for x in loads(p))}
                    facts = {e: v for e, v in facts.items() if not any(x[0] == 'phi' and x[1] in ph for x in multi[e])}
                env.update(new); regs |= al
                env = {k: v for k, v in env.items() if k in L and k in RV}
                facts = {e: v for e, v in facts.items() if e in lf[b] and e in RC}
                if st == 'C' and not esc and not pls and regs and not regs & L and start is not None: 
                    out.append(('lost', blk[0], b)); continue
                regs &= L | {a for a in regs if a < F.nargs}
                key = (b, st, frozenset(regs), frozenset(pls), frozenset(facts.items()), frozenset(env.items()), esc)
                if key in seen: continue
                seen.add(key)
            stop = False
            while pos < len(blk):
                i = blk[pos]; op = i.op
                if op == 'load':
                    p = F.expr(i.a[0][0])
                    if st in self.bad and self.based(F, i.a[0][0], regs, pls): out.append(('deref', i, st)); stop = True; break
                    if p in pls: regs.add(i.id)
                    else: regs.discard(i.id)
                    env.pop(i.id, None)
                elif op == 'store':
                    v, a = i.a[0][0], i.a[0][1]
                    if st in self.bad and self.based(F, a, regs, pls): out.append(('deref', i, st)); stop = True; break
                    p = F.expr(a)
                    if self.after and pls: pls = {q for q in pls if q is p or p not in loads(q)}
                    for e in [e for e in facts if p in multi[e]]: del facts[e]
                    if isinstance(v, int) and v in regs:
                        r, cr = root(p)
                        if r[0] in ('loc',) and not cr: pls.add(p)
                        else:
                            pls.add(p)
                            if st != 'N': esc = True
                    elif isinstance(v, int) and self.derived(F, v, regs): esc = True
                    else:
                        if p in pls:
                            pls.discard(p)
                            if st == 'C' and not esc and not pls and not (regs & self.later(F, b, pos, live)) and start is not None and kind == 'mem':
                                out.append(('lost', i, b)); stop = True; break
                elif op in CASTS:
                    v = i.a[0][0]
                    if isinstance(v, int) and v in regs: regs.add(i.id)
                    else: regs.discard(i.id)
                    if isinstance(v, int) and v in env: env[i.id] = env[v]
                elif op == 'select':
                    vs = [v for v in i.a[0][1:] if isinstance(v, int)]
                    if any(v in regs for v in vs): regs.add(i.id)
                elif op == 'icmp':
                    r = self.evc(F, i, env)
                    if r is not None: env[i.id] = int(r)
                    else: env.pop(i.id, None)
                elif op in ('call', 'invoke'):
                    r = self.call(F, i, st, regs, pls, env, out, start)
                    for e in [e for e in facts if mk('call', F.callee(i) or '*', i.id) in multi[e]]: del facts[e]
                    if r == 'stop': stop = True; break
                    if i is start:
                        # the same site again: this resource is out of reach unless somebody still holds it
                        if st == 'C' and not esc and not pls and not regs - {i.id} and kind == 'mem': out.append(('lost', i, b))
                        stop = True; break
                    if isinstance(r, list):
                        for st2, env2, esc2 in r:
                            work.append((b, pos + 1, prev, st2, frozenset(regs), frozenset(pls), frozenset(facts.items()), frozenset({**env, **env2}.items()), esc or esc2))
                        stop = True; break
                    if r is not None:
                        st2, esc2 = r
                        st = st2; esc = esc or esc2
                        if st in ('R',):
                            # released: only the fact matters from here on
                            pass
                pos += 1
            if stop: continue
            if st == 'R' and not self.after or self.after and not pls and not regs & (self.later(F, b, len(blk), live) | self.hold) or self.null and (st == 'C' or st == 'N' and not pls and not regs & self.later(F, b, len(blk), live)):
                # released, or missing and out of reach
                continue
            t = blk[-1]
            if t.op == 'ret':
                v = None
                a = t.a[0] if t.a else None
                if isinstance(a, list): a = a[0] if a else None
                if isinstance(a, int):
                    if a in regs: esc = 'returned'
                    v = env.get(a)
                elif isinstance(a, dict): v = a.get('i', 'null' if 'n' in a else None)
                out.append(('ret', t, st, esc, v, frozenset(pls), prev))
            elif t.op == 'br' and t.a[0] is not None:
                c = t.a[0]
                r = None
                if isinstance(c, dict): r = bool(c.get('i'))
                elif c in env and env[c] not in ('null', 'nz'): r = bool(env[c])
                e, pol = canon_cond(F.expr(c))
                nul = self.nulltest(F, c, regs)
                if r is None and nul is not None:
                    if st == 'N': r = nul
                    elif st == 'C' or st == 'R': r = not nul
                if r is None and nul is None and e in facts: r = facts[e] == pol
                for k, s in ((True, t.a[1]), (False, t.a[2])):
                    if r is not None and k != r: continue
                    st2 = st; e2 = env; f2 = facts
                    if nul is not None and st == 'U': st2 = 'N' if k == nul else 'C'
                    if st2 == 'C' and self.null: continue
                    es = [env]
                    if r is None:
                        f = self.learn(F, c, k)
                        if f: es = [{**env, **f}]
                        if e in multi and nul is None: f2 = {**facts, e: k == pol}
                        w = self.ordered(F, c, k)
                        if w: es = [{**es[0], w[0]: x} for x in w[1]]
                    for e2 in es: work.append((s, 0, b, st2, frozenset(regs), frozenset(pls), frozenset(f2.items()), frozenset(e2.items()), esc))
            elif t.op == 'switch':
                v = t.a[0]
                k = env.get(v) if isinstance(v, int) else None
                if isinstance(k, int): tg = [x for m, x in t.a[2] if m == k] or [t.a[1]]
                else: tg = list(dict.fromkeys([t.a[1]] + [x for _, x in t.a[2]]))
                for s in tg: work.append((s, 0, b, st, frozenset(regs), frozenset(pls), frozenset(facts.items()), frozenset(env.items()), esc))
            elif t.op != 'unreachable':
                for s in F.succs[b]: work.append((s, 0, b, st, frozenset(regs), frozenset(pls), frozenset(facts.items()), frozenset(env.items()), esc))
        return out
    def later(self, F, b, pos, live):
        s = set()
        for x in F.succs[b]: s |= live[x]
        for i in F.blocks[b][pos + 1:]: s |= {o for o in operands(i) if isinstance(o, int)}
        t = F.blocks[b][-1]
        if t.op == 'ret': 
            a = t.a[0] if t.a else None
            if isinstance(a, list): a = a[0] if a else None
            if isinstance(a, int): s.add(a)
        return s
    def based(self, F, v, regs, pls=()):
        """address v points into the resource"""
        while isinstance(v, int):
            if v in regs: return True
            i = F.by_id.get(v)
            if i is None: return False
            if i.op == 'getelementptr': v = i.a[1]
            elif i.op in CASTS: v = i.a[0][0]
            else: return False
        return False
    def derived(self, F, v, regs): return self.based(F, v, regs)
    def evc(self, F, i, env):
        def val(v):
            if isinstance(v, dict): return v.get('i', 'null' if 'n' in v else None)
            return env.get(v)
        a, b = val(i.a[1]), val(i.a[2])
        if a is None or b is None: return None
        if 'nz' in (a, b) or 'null' in (a, b):
            x = {'null': 0, 'nz': 1}.get(a, a), {'null': 0, 'nz': 1}.get(b, b)
            if a == 'nz' and b == 'nz': return None
            return cmpc(i.a[0], *x) if i.a[0] in ('eq', 'ne') else None
        return cmpc(i.a[0], a, b)
    def nulltest(self, F, c, regs):
        """True: the condition holds iff the resource is null; False: iff it is present"""
        i = F.by_id.get(c) if isinstance(c, int) else None
        if i is None or i.op != 'icmp' or i.a[0] not in ('eq', 'ne'): return None
        for x, y in ((i.a[1], i.a[2]), (i.a[2], i.a[1])):
            if isinstance(x, int) and x in regs and isinstance(y, dict) and ('n' in y): return i.a[0] == 'eq'
        return None
    def learn(self, F, c, k):
        i = F.by_id.get(c) if isinstance(c, int) else None
        if i is None: return None
        out = {c: int(k)}
        if i.op == 'icmp' and (i.a[0] == 'eq') == k and i.a[0] in ('eq', 'ne'):
            for x, y in ((i.a[1], i.a[2]), (i.a[2], i.a[1])):
                if isinstance(x, int) and isinstance(y, dict) and 'i' in y: out[x] = y['i']
                if isinstance(x, int) and isinstance(y, dict) and 'n' in y: out[x] = 'null'
        elif i.op == 'icmp' and i.a[0] in ('eq', 'ne'):
            for x, y in ((i.a[1], i.a[2]), (i.a[2], i.a[1])):
                if isinstance(x, int) and isinstance(y, dict) and ('n' in y or y.get('i') == 0): out[x] = 'nz'
        return out
    def ordered(self, F, c, k):
        """an ordered comparison of the status of a call with a constant: (the call, the constants it can return that satisfy it)"""
        i = F.by_id.get(c) if isinstance(c, int) else None
        if i is None or i.op != 'icmp' or i.a[0] in ('eq', 'ne') and k == (i.a[0] == 'eq'): return None
        x, y = i.a[1], i.a[2]
        if not (isinstance(x, int) and isinstance(y, dict) and 'i' in y): return None
        vs = self.values(F, [x])
        return (x, sorted(z for z in vs if bool(cmpc(i.a[0], z, y['i'])) == k)) if vs else None
    def statuses(self, G):
        """the constants a function can return, None when it returns anything else"""
        key = ('statuses', G.key())
        if key in self._par: return self._par[key]
        self._par[key] = None
        work = []
        for blk in G.blocks:
            t = blk[-1]
            if t.op != 'ret': continue
            a = t.a[0] if t.a else None
            work.append(a[0] if isinstance(a, list) and a else a)
        self._par[key] = self.values(G, work)
        return self._par[key]
    def values(self, G, work):
        """the constants a value can be, None when it can be anything else"""
        out = set(); seen = set(); work = list(work)
        while work:
            a = work.pop()
            if isinstance(a, dict):
                if 'i' in a: out.add(a['i']); continue
                return None
            if not isinstance(a, int): return None
            if a in seen: continue
            seen.add(a)
            i = G.by_id.get(a)
            if i is None: return None
            if i.op == 'phi': work += [v for v, q in i.a[0]]
            elif i.op == 'select': work += list(i.a[0][1:])
            elif i.op in ('call', 'invoke') and G.callee(i) not in WRAP:
                ts = self.P.targets(G, i)
                vs = [self.statuses(t) for t in ts]
                if not vs or None in vs: return None
                out |= set().union(*vs)
            else: return None
            if len(out) > 6: return None
        return frozenset(out)
    def entry_envs(self, F, bb):
        """what the branches that dominate a block say about statuses"""
        out = {}; b = bb; d = F.idom
        while b is not None and d.get(b) is not None and d[b] != b:
            a = d[b]; t = F.blocks[a][-1]
            if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2]:
                for k, s in ((True, t.a[1]), (False, t.a[2])):
                    if F.dominates(s, bb) and len(F.preds[s]) == 1:
                        w = self.ordered(F, t.a[0], k)
                        if w: out[w[0]] = out.get(w[0], set(w[1])) & set(w[1])
                        else:
                            f = self.learn(F, t.a[0], k) or {}
                            for x, v in f.items():
                                if x != t.a[0] and isinstance(v, int): out[x] = {v}
            b = a
        envs = [{}]
        for x, vs in sorted(out.items()):
            if len(envs) * len(vs) <= 16: envs = [{**e, x: v} for e in envs for v in sorted(vs)]
        return envs
    # ------------------------------------------------------------ calls
    def call(self, F, i, st, regs, pls, env, out, start):
        n = F.callee(i); args = i.a[1]
        hit = [k for k, a in enumerate(args) if isinstance(a, int) and a in regs]
        der = [k for k, a in enumerate(args) if isinstance(a, int) and k not in hit and self.based(F, a, regs)]
        if n and n.startswith('llvm.') and not n.startswith('llvm.mem'): return None
        if self.after and n in FREE | CLOSE | REALLOC and hit: out.append(('deref', i, 'again')); return 'stop'
        if n in FREE and hit: return ('R', False)
        if n in CLOSE and hit:
            if st in self.bad: out.append(('deref', i, st)); return 'stop'
            return ('R', False)
        if n in REALLOC and 0 in hit and i is not start:
            return [('R', {i.id: 'nz'}, False), (st, {i.id: 'null'}, False)]
        ts = self.P.targets(F, i) if n not in WRAP else []
        if hit or der:
            if not ts:
                if n in WRAP: return None
                if st in self.bad: out.append(('deref', i, st)); return 'stop'
            for t in ts:
                for k in hit:
                    s = self.param(t, k)
                    if st in self.bad and 'deref' in s: out.append(('deref', i, st)); return 'stop'
                    if 'free' in s:
                        if self.after: out.append(('deref', i, 'again')); return 'stop'
                        return ('R', False)
                    if 'esc' in s: return (st, True)
                for k in der:
                    if st in self.bad and 'deref' in self.param(t, k): out.append(('deref', i, st)); return 'stop'
        # the structure that holds the resource is passed on
        if pls and ts:
            A = [F.expr(a) for a in args]
            for t in ts:
                fr, ks = self.holders(t)
                for e in fr:
                    q = subst(e, A)
                    if q is not None and q in pls:
                        if self.after: return self.again(F, i, t, A, pls, out)
                        return ('R', False)
                if (self.null or self.after) and st in self.bad:
                    for k, a in enumerate(A):
                        for p in pls:
                            q = rebase(p, a, k)
                            if q is not None and self.place(t, q): out.append(('deref', i, st)); return 'stop'
                for k in ks:
                    if k < len(A):
                        for p in pls:
                            if self.inside(p, A[k]): return (st, True)
        return None
    def again(self, F, i, t, A, pls, out):
        """a callee that releases a place that holds a released block"""
        for k, a in enumerate(A):
            for p in list(pls):
                q = rebase(p, a, k)
                if q is not None:
                    if self.place(t, q): out.append(('deref', i, 'again')); return 'stop'
                    pls.discard(p)
        return None
    def place(self, G, p):
        """the function accesses the block a place (over its arguments) points to without testing the pointer"""
        key = (G.key(), p)
        if key not in self._par:
            self._par[key] = False
            self._par[key] = any(o[0] == 'deref' for o in self.explore(G, None, None, (p,), 'R' if self.after else 'N'))
        return self._par[key]
    def inside(self, p, a):
        while True:
            if p is a: return True
            if p[0] in ('fld', 'idx'): p = p[1]
            else: return False
    def param(self, G, k):
        """what a function does with its k-th argument: deref (before a null test), free, esc"""
        key = (G.key(), k)
        if key in self._par: return self._par[key]
        self._par[key] = set()
        if G.name in ('myfree',): self._par[key] = {'free'}; return self._par[key]
        s = set()
        for o in self.explore(G, None, k, (), 'R' if self.after else 'U'):
            if o[0] == 'deref': s.add('deref')
        for r, e in self.relhits(G):
            if e == ('arg', k): s.add('free')
        if self.escapes(G, k): s.add('esc')
        self._par[key] = s
        return s
    def escapes(self, G, k):
        der = {k}; ch = True
        while ch:
            ch = False
            for i in G.ins():
                if i.id in der: continue
                if i.op in CASTS | {'phi', 'select', 'getelementptr'}:
                    ops = [i.a[1]] if i.op == 'getelementptr' else operands(i)
                    if any(isinstance(o, int) and o in der for o in ops): der.add(i.id); ch = True
        for i in G.ins():
            if i.op == 'store' and isinstance(i.a[0][0], int) and i.a[0][0] in der:
                r, cr = root(G.expr(i.a[0][1]))
                if r[0] != 'loc' or cr: return True
            if i.op in ('call', 'invoke'):
                for t in self.P.targets(G, i) if G.callee(i) not in WRAP else []:
                    for n, a in enumerate(i.a[1]):
                        if isinstance(a, int) and a in der and 'esc' in self.param(t, n): return True
        return False
    def relhits(self, G):
        """(instruction, expression released) of a function, its callees included"""
        return [(None, e) for e in self.holders(G)[0]] + [(i, x) for i in G.calls(*(FREE | CLOSE)) for x in phi_leaves(G, G.expr(i.a[1][0]))]
    def regrown(self, G, i):
        """the reallocation takes its block from a place (over the arguments) and stores the new block there"""
        e = G.expr(i.a[1][0])
        if e[0] != 'ld' or root(e)[0][0] != 'arg': return False
        return any(j.op == 'store' and G.expr(j.a[0][1]) is e[1] and any(x[0] == 'call' and x[2] == i.id for x in phi_leaves(G, G.expr(j.a[0][0]))) for j in G.ins())
    def holders(self, G):
        """places (over the arguments) whose content is released; arguments whose object may be kept"""
        k = G.key()
        if k in self._frees: return self._frees[k]
        self._frees[k] = (set(), set())
        fr = set(); ks = set()
        for i in G.ins():
            if i.op not in ('call', 'invoke'): continue
            n = G.callee(i)
            if n in REALLOC and self.regrown(G, i): continue
            if n in FREE | CLOSE | REALLOC:
                e = G.expr(i.a[1][0])
                if e[0] == 'ld' and root(e)[0][0] == 'arg': fr.add(e[1])
                else: fr |= {x for x in phi_leaves(G, e) if x[0] == 'arg'}
            elif n not in WRAP:
                A = [G.expr(a) for a in i.a[1]]
                for t in self.P.targets(G, i):
                    for e in self.holders(t)[0]:
                        q = subst(e, A)
                        if q is not None and root(q)[0][0] == 'arg': fr.add(q)
        self._frees[k] = (fr, ks)
        return self._frees[k]
