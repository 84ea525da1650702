"""Enumeration of the paths of an acyclic region with phi values resolved along each path (used for the option parsers:
the option word is a known constant, everything else unknown)."""
from .peval import *

class Path:
    __slots__ = ('end', 'env', 'effects', 'facts', 'blocks', 'ret', 'calls')

def walk(F, start, prev, env, decide, stop, on, limit=4000, maxlen=400):
    """decide(F, ins, cond expr, state) -> True/False/None; on(ins, resolve, state): observer of instructions"""
    out = []
    st = [(start, prev, dict(env), {}, [], 0)]
    n = 0
    while st:
        b, p, env, mem, eff, ln = st.pop()
        n += 1
        if n > limit * 10 or ln > maxlen: raise Broken('path enumeration of %s' % F.name)
        new = {}
        for i in F.blocks[b]:
            if i.op != 'phi': break
            for v, q in i.a[0]:
                if q == p: new[mk('phi', i.id)] = res(F, v, env); break
        env = dict(env); env.update(new)
        def R(v): return res(F, v, env)
        dead = False
        for i in F.blocks[b]:
            if i.op in ('phi', 'br', 'switch', 'ret'): continue
            if i.op == 'load':
                q = F.expr(i.a[0][0])
                if q[0] == 'loc' and F.vlocals: env[mk('lv', i.id)] = env.get(('M', q), mk('ld', q))
            elif i.op == 'store':
                q = F.expr(i.a[0][1])
                if q[0] == 'loc' and F.vlocals: env[('M', q)] = R(i.a[0][0])
            elif i.op == 'call' and F.vlocals:
                for a in i.a[1]:
                    q = F.expr(a) if not (isinstance(a, dict)) else None
                    if q is not None and q[0] == 'loc' and not (F.callee(i) or '').startswith('llvm.'): env[('M', q)] = mk('upd', q[1], i.id)
            r = on(i, R, mem, eff)
            if r == 'dead': dead = True; break
        t = F.blocks[b][-1]
        if dead: continue
        if t.op == 'ret':
            v = t.a[0][0] if isinstance(t.a[0], list) and t.a[0] else t.a[0] if t.a else None
            out.append(('ret', R(v) if v is not None and v != [] else None, eff, env)); continue
        if t.op == 'unreachable': continue
        if t.op == 'br' and t.a[0] is not None:
            e = R(t.a[0]); v = decide(e, mem)
            if v is None:
                k = [(t.a[1], True), (t.a[2], False)]
            else: k = [(t.a[1] if v else t.a[2], None)]
            for s, val in k:
                eff2 = list(eff); mem2 = dict(mem)
                if val is not None: mem2[('cond', e)] = val; eff2.append(('br', e, val))
                if s in stop: out.append(('stop', s, eff2, env, b))
                else: st.append((s, b, env, mem2, eff2, ln + 1))
        elif t.op == 'switch':
            e = R(t.a[0]); v = decide(e, mem)
            tg = []
            if v is None: tg = list(dict.fromkeys([t.a[1]] + [x for k, x in t.a[2]]))
            else:
                tg = [x for k, x in t.a[2] if k == v] or [t.a[1]]
            for s in tg:
                if s in stop: out.append(('stop', s, list(eff), env, b))
                else: st.append((s, b, env, dict(mem), list(eff), ln + 1))
        else:
            for s in F.succs[b]:
                if s in stop: out.append(('stop', s, eff, env, b))
                else: st.append((s, b, env, mem, eff, ln + 1))
    return out

def res(F, v, env):
    e = F.expr(v) if not isinstance(v, E) else v
    for _ in range(4):
        n = subst(e, env)
        if n is e: return n
        e = n
    return e
