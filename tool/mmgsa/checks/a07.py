"""Every function is evaluated symbolically over all values of the verbosity and debug level (a finite set: the levels that the comparisons of the
program tell apart). A branch whose outcome follows from the level alone separates blocks that run at every level from blocks that run at some levels
only. The latter may print, may fail, and may compute values that only they use; anything else they do makes the result depend on the level."""
import re
from ..own import *
from ..ir import _idoms as idoms
from ..effects import OwnEffects, PRINT, MATH, ASSERT
from . import a06, a05, a31

SETT = ('imprim', 'ddebug')
LEVELS = [(v, d) for v in list(range(-12, 14)) + [-100, 100] for d in (0, 1)]
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}

# the reports store the qualities they print; these are computed anew before remeshing starts and not used otherwise
QUALITY = ('MMG5_Tria.qual', 'MMG5_Tetra.qual')
CLOCK = ('gettimeofday', 'getrusage')
# text composed for a message
TEXT = {'@MMG5_Get_tagName.tags_name'}

def setting(F, v):
    """which setting an address designates"""
    e = F.expr(v)
    if e[0] == 'fld' and e[2] == 'struct.MMG5_Info' and e[3] in SETT: return SETT.index(e[3])

class Fun:
    """one function with the arguments known to carry a setting: env(level) evaluates"""
    def __init__(self, P, F, pargs):
        self.P = P; self.F = F; self.pargs = pargs; self.memo = {}
        self.uses = bool(pargs) or any(i.op == 'load' and setting(F, i.a[0][0]) is not None for i in F.ins())
    def ev(self, v, L):
        if isinstance(v, dict): return v.get('i')
        k = (v, L)
        if k in self.memo: return self.memo[k]
        self.memo[k] = None
        r = self.memo[k] = self._ev(v, L)
        return r
    def _ev(self, v, L):
        F = self.F
        if v < F.nargs: return L[self.pargs[v]] if v in self.pargs else None
        i = F.by_id[v]
        if i.op == 'load':
            s = setting(F, i.a[0][0])
            return L[s] if s is not None else None
        if i.op == 'call' and F.callee(i) in ('llvm.abs.i32', 'abs'):
            x = self.ev(i.a[1][0], L); return None if x is None else abs(x)
        if i.op == 'icmp':
            a = self.ev(i.a[1], L); b = self.ev(i.a[2], L)
            if a is None or b is None or i.a[0] not in CMP: return None
            return int(CMP[i.a[0]](a, b))
        if i.op in CASTS: return self.ev(i.a[0][0], L)
        if i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            a, b = self.ev(i.a[0][0], L), self.ev(i.a[0][1], L)
            if i.op == 'and' and 0 in (a, b): return 0
            if a is None or b is None: return None
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b}[i.op]
        if i.op == 'select':
            c = self.ev(i.a[0][0], L)
            return None if c is None else self.ev(i.a[0][1 if c else 2], L)
        if i.op == 'phi':
            # the value chosen by a branch over the level
            edges = self.reach(L)[1]
            vs = {self.ev(x, L) for x, p in i.a[0] if (p, i.bb) in edges and x != v}
            return vs.pop() if len(vs) == 1 else None
        return None
    def reach(self, L):
        if ('R', L) in self.memo: return self.memo[('R', L)]
        F = self.F; seen = set(); edges = set(); st = [0]
        self.memo[('R', L)] = (set(range(len(F.blocks))), {(b, s) for b in range(len(F.blocks)) for s in F.succs[b]})
        # first pass without values chosen by the level; a second one refines phis
        for rnd in (0, 1):
            seen = set(); edges = set(); st = [0]
            for k in [k for k in self.memo if k[0] != 'R' and k[1] == L]: del self.memo[k]
            while st:
                b = st.pop()
                if b in seen: continue
                seen.add(b)
                t = F.blocks[b][-1]; su = F.succs[b]
                if t.op == 'br' and t.a[0] is not None:
                    v = self.ev(t.a[0], L)
                    if v is not None: su = [t.a[1] if v else t.a[2]]
                elif t.op == 'switch':
                    v = self.ev(t.a[0], L)
                    if v is not None: su = [dict((c, b2) for c, b2 in t.a[2]).get(v, t.a[1])]
                for s in su: edges.add((b, s)); st.append(s)
            self.memo[('R', L)] = (seen, edges)
        return seen, edges

DRIVER = ('mmg2dlib', 'mmg2dmesh', 'mmg2dls', 'mmg2dmov', 'mmgslib', 'mmgsls', 'mmg3dlib', 'mmg3dls', 'mmg3dmov', 'main')
def failure(F, v):
    """does this returned constant report a failure?"""
    if isinstance(v, dict) and 'i' in v:
        driver = F.name == 'main' or F.name.split('_')[-1] in DRIVER
        return v['i'] != 0 if driver else v['i'] <= 0
    return isinstance(v, dict) and 'n' in v

def fails(F, b, s):
    """every return reached after taking the edge b -> s returns a failure constant"""
    def val(v, known):
        return known.get(v, v) if isinstance(v, int) else v
    seen = set(); n = 0
    st = [(b, s, ())]
    while st:
        b, s, kn = st.pop()
        known = dict((k, dict([v])) for k, v in kn)
        ph = {}
        for i in F.blocks[s]:
            if i.op != 'phi': break
            for v, p in i.a[0]:
                if p == b:
                    w = val(v, known)
                    if isinstance(w, dict): ph[i.id] = w
        for i in F.blocks[s]:
            if i.op != 'phi': break
            known.pop(i.id, None)
        known.update(ph)
        kn = tuple(sorted((k, next((a, c) for a, c in v.items() if a in ('i', 'n'))) for k, v in known.items() if 'i' in v or 'n' in v))
        if (b, s, kn) in seen: continue
        seen.add((b, s, kn)); n += 1
        if n > 4000: return False
        t = F.blocks[s][-1]
        if t.op == 'ret':
            if not t.a or not t.a[0]: return False
            v = t.a[0]
            while isinstance(v, list): v = v[0]
            if not failure(F, val(v, known)): return False
        for q in F.succs[s]: st.append((s, q, kn))
    return True

class Levels:
    """blocks and edges of one function that are executed at some levels only, and the values that depend on the level"""
    def __init__(self, U, E, vout, vret):
        self.vout = vout; self.vret = vret; self.U = U; F = self.F = U.F; self.E = E; n = len(F.blocks)
        R = [U.reach(L) for L in LEVELS]
        self.all = set.union(*[r for r, e in R]); edges = set.union(*[e for r, e in R])
        V = self.all - set.intersection(*[r for r, e in R])
        und = lambda b: F.blocks[b][-1].op in ('br', 'switch') and len(set(F.succs[b])) > 1 and all(U.ev(F.blocks[b][-1].a[0], L) is None for L in LEVELS)
        # a consistency check or report that fails may stop the run: these exits are left out
        self.cut = {(b, s) for b in V if und(b) for s in F.succs[b] if fails(F, b, s)}
        R0 = R
        while True:
            R = [self.walk(e) for r, e in R0]
            self.V = set.union(*[r for r, e in R]) - set.intersection(*[r for r, e in R])
            self.Ve = set.union(*[e for r, e in R]) - set.intersection(*[e for r, e in R])
            self.live = set.union(*[r for r, e in R])
            self.T = set(); self.cd = self.cdeps()
            self.local()
            while self.step(): pass
            # the outcome of a check or report that is made at some levels only
            new = {(b, s) for b in self.live if F.blocks[b][-1].op in ('br', 'switch') and isinstance(F.blocks[b][-1].a[0], int) and F.blocks[b][-1].a[0] in self.T and und(b)
                   and self.outcome(F.blocks[b][-1].a[0]) for s in F.succs[b] if (b, s) not in self.cut and fails(F, b, s)}
            if not new: break
            self.cut |= new
    def walk(self, edges):
        seen = set(); out = set(); st = [0]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            for s in self.F.succs[b]:
                if (b, s) in edges and (b, s) not in self.cut: out.add((b, s)); st.append(s)
        return seen, out
    def base(self, v):
        F = self.F
        while isinstance(v, int):
            i = F.by_id.get(v)
            if i is None: return None
            if i.op == 'alloca': return v
            if i.op == 'getelementptr': v = i.a[1]
            elif i.op in CASTS: v = i.a[0][0]
            else: return None
    def cdeps(self):
        """control dependences in the graph without the exits left out"""
        F = self.F
        out = {b: list(dict.fromkeys(s for s in F.succs[b] if s in self.live and (b, s) not in self.cut)) for b in self.live}
        inn = {b: [] for b in self.live}
        for b in out:
            for s in out[b]: inn[s].append(b)
        ex = [b for b in self.live if not out[b] and F.blocks[b][-1].op == 'ret']
        succ = dict(inn); succ[-1] = ex; pred = {b: list(out[b]) for b in out}; pred[-1] = []
        for e in ex: pred[e].append(-1)
        pd = idoms(len(F.blocks), -1, succ, pred)
        cd = {}
        for a in self.live:
            if len(out[a]) < 2: continue
            stop = pd.get(a)
            for s in out[a]:
                b = s
                while b is not None and b != stop and b != -1:
                    cd.setdefault(b, set()).add((a, s))
                    if pd.get(b) == b: break
                    b = pd.get(b)
        return cd
    def outcome(self, v):
        """is this the result of a routine, compared with a constant?"""
        i = self.F.by_id.get(v)
        while i is not None and (i.op in CASTS or i.op == 'icmp'):
            if i.op == 'icmp' and not isinstance(i.a[2], dict): return False
            v = i.a[1] if i.op == 'icmp' else i.a[0][0]
            i = self.F.by_id.get(v) if isinstance(v, int) else None
        return i is not None and i.op in ('call', 'invoke')
    def local(self):
        """local arrays and variables given a value at some levels only"""
        F = self.F
        for b in self.V:
            for i in F.blocks[b]:
                if i.op == 'store': os = [i.a[0][1]]
                elif i.op in ('call', 'invoke') and not F.callee(i) in PRINT and not (F.callee(i) or '').startswith('llvm.dbg'): os = [a for k, a in enumerate(i.a[1]) if self.written(i, k)]
                else: continue
                for o in os:
                    x = self.base(o)
                    if x is not None and x not in self.T: self.T.add(x)
    def dep(self, i):
        """local variables that a callee fills at some levels only, and whether its result depends on the level"""
        ts = self.U.P.targets(self.F, i)
        return {k for t in ts for k in self.vout.get(t.key(), ())}, any(t.key() in self.vret for t in ts)
    def written(self, i, k):
        ts = self.U.P.targets(self.F, i)
        if not ts:
            c = self.F.callee(i) or ''
            return not (c in MATH or c in PRINT or c.startswith('llvm.lifetime')) and (k == 0 or not c.startswith('llvm.mem'))
        return any(e[0] == 'warg' and e[1] == k for t in ts for e in self.E.summary(t))
    def step(self):
        F = self.F; n = len(self.T) + len(self.V)
        for b in self.live:
            for i in F.blocks[b]:
                if i.id in self.T: continue
                if i.op == 'phi':
                    inc = [(v, p) for v, p in i.a[0] if p in self.live and (p, b) not in self.cut]
                    if b not in self.V and any((p, b) in self.Ve for v, p in inc) and len({str(v) for v, p in inc}) > 1: self.T.add(i.id)
                    elif any(isinstance(v, int) and v in self.T for v, p in inc): self.T.add(i.id)
                elif i.op == 'store':
                    v, a = i.a[0]
                    x = self.base(a)
                    if x is not None and isinstance(v, int) and v in self.T: self.T.add(x)
                elif i.op in ('call', 'invoke') and not self.U.P.targets(F, i) and F.callee(i) in PRINT: pass
                elif i.op in ('call', 'invoke') and b not in self.V and any(self.dep(i)):
                    vo, vr = self.dep(i)
                    for k in vo:
                        x = self.base(i.a[1][k]) if k < len(i.a[1]) else None
                        if x is not None: self.T.add(x)
                    if vr: self.T.add(i.id)
                elif i.op == 'load':
                    if isinstance(i.a[0][0], int) and i.a[0][0] in self.T: self.T.add(i.id)
                elif i.op not in ('br', 'switch', 'ret', 'alloca') and any(isinstance(o, int) and o in self.T for o in operands(i)): self.T.add(i.id)
        # what is executed depending on such a value
        cd = self.cd
        for b in self.live - self.V:
            for x in cd.get(b, ()):
                br = x[0]
                t = F.blocks[br][-1]
                if t.op in ('br', 'switch') and isinstance(t.a[0], int) and (t.a[0] in self.T or br in self.V) and br in self.live:
                    self.V.add(b)
                    self.Ve |= {(b, s) for s in F.succs[b]}
        return len(self.T) + len(self.V) != n

def carried(P):
    """(function, argument) pairs that receive the verbosity or debug level"""
    out = {}; ch = True
    while ch:
        ch = False
        for F in P.fns.values():
            for i in F.ins():
                if i.op not in ('call', 'invoke'): continue
                for k, a in enumerate(i.a[1]):
                    if not isinstance(a, int): continue
                    if a < F.nargs: s = out.get(F.key(), {}).get(a)
                    else:
                        j = F.by_id[a]
                        while j.op in CASTS and isinstance(j.a[0][0], int) and j.a[0][0] >= F.nargs: j = F.by_id[j.a[0][0]]
                        s = setting(F, j.a[0][0]) if j.op == 'load' else None
                    if s is None: continue
                    for t in P.targets(F, i):
                        if k < t.nargs and k not in out.setdefault(t.key(), {}): out[t.key()][k] = s; ch = True
    return out

def failing(F):
    """blocks from which every return reports a failure"""
    return {b for b in range(len(F.blocks)) if F.preds[b] and all(fails(F, p, b) for p in F.preds[b])}

def run(c):
    P = c.prog('ndebug')
    read = set(); fields = set()
    for F in P.fns.values():
        for i in F.ins():
            if i.op in ('load', 'store'):
                e = F.expr(i.a[0][0] if i.op == 'load' else i.a[0][1])
                while e[0] == 'idx': e = e[1]
                if e[0] == 'fld': (read if i.op == 'load' else fields).add('%s.%s' % (e[2].replace('struct.', ''), e[3]))
    # a field of the structures that no routine ever reads cannot influence anything; the settings themselves, and the memory account
    skip = TEXT | {f for f in fields - read if f.startswith('MMG5_Info.')} | {'MMG5_Info.imprim', 'MMG5_Info.ddebug', 'MMG5_Mesh.memCur'}
    E = OwnEffects(P, a06.flags(P), skip, failing)
    car = carried(P); vout = {}; vret = set(); public = a31.public()
    users = {}
    for F in P.fns.values():
        for i in F.ins():
            if i.op in ('call', 'invoke'):
                for t in P.targets(F, i): users.setdefault(t.key(), set()).add(F.key())
    key = {F.key(): F for F in P.fns.values()}
    # routines used by the library itself answer to their callers; main programs and Fortran wrappers are users
    internal = {key[k].name for k, us in users.items() if k in key and any(key[u].name != 'main' and not a05.is_fortran_unit(key[u].unit) for u in us)}
    work = sorted(key); res = {}
    while work:
        k = work.pop(); F = key[k]
        if a05.is_fortran_unit(F.unit): continue
        U = Fun(P, F, car.get(k, {}))
        if not U.uses and not any(t.key() in vout or t.key() in vret for i in F.ins() if i.op in ('call', 'invoke') for t in P.targets(F, i)): continue
        W = Levels(U, E, vout, vret)
        out, vo, vr = analyse(c, F, W, E, public, internal)
        res[k] = (W, out)
        if vo - vout.get(k, set()) or vr and k not in vret:
            vout.setdefault(k, set()).update(vo)
            if vr: vret.add(k)
            work += sorted(users.get(k, ()))
    c.floor('function', 150); c.floor('blocks at some levels only', 600)
    for k, (W, out) in sorted(res.items()):
        F = W.F
        for v in out: c.violation(*v)
        c.ob('function', '%s: %d of %d blocks at some levels only, %d failing exits of additional checks' % (F.name, len(W.V), len(W.live), len(W.cut)))
        c.count('blocks at some levels only', len(W.V))

def analyse(c, F, W, E, public, internal):
    out = []; vo = set(); vr = False
    lib = F.name in public and F.name not in internal or F.name == 'main'
    def bad(i):
        """effects that matter; what is written through an argument is the caller's business unless the function is public"""
        r = []
        for e in E.of(F, i):
            if e[0] in ('io', 'flag') or e[0] == 'ext' and e[1] in CLOCK: continue
            if e[0] == 'warg' and not e[3] and not lib and not re.search(r'MMG5_\w+\.', e[2]): vo.add(e[1]); continue
            if i.op == 'call' and re.search(r'_(in|out)qua$', F.callee(i) or '') and (e[2] if e[0] == 'warg' else e[1]) in QUALITY: continue
            r.append(e)
        return r
    what = lambda es: es[0][2] if es[0][0] == 'warg' else es[0][1]
    for b in sorted(W.live):
        for i in F.blocks[b]:
            if b in W.V:
                if i.op == 'store':
                    es = bad(i)
                    if es: out.append(('%s/store/%s' % (F.name, what(es)), i.loc(), '%s is assigned at some verbosity or debug levels only' % pp(F, F.expr(i.a[0][1]))))
                elif i.op in ('call', 'invoke'):
                    es = bad(i)
                    if es: out.append(('%s/call/%s' % (F.name, F.callee(i) or pp(F, F.expr(i.a[0]))), i.loc(), '%s, which modifies %s, is called at some verbosity or debug levels only' % (F.callee(i) or 'a routine', sorted({str(e[2] if e[0] == 'warg' else e[1]) for e in es})[:3])))
                elif i.op == 'ret' or i.op == 'unreachable':
                    out.append(('%s/ends' % F.name, i.loc(), 'the function ends here at some verbosity or debug levels only'))
            elif any(isinstance(o, int) and o in W.T for o in operands(i)):
                if i.op == 'store' and isinstance(i.a[0][0], int) and i.a[0][0] in W.T:
                    if bad(i): out.append(('%s/value/%s' % (F.name, pp(F, F.expr(i.a[0][1]))), i.loc(), 'the value stored depends on the verbosity or debug level'))
                elif i.op in ('call', 'invoke') and not all(W.base(o) is not None and k in W.dep(i)[0] for k, o in enumerate(i.a[1]) if isinstance(o, int) and (o in W.T or W.base(o) in W.T)):
                    if bad(i): out.append(('%s/argument/%s' % (F.name, F.callee(i)), i.loc(), 'an argument of %s depends on the verbosity or debug level' % F.callee(i)))
                elif i.op == 'ret':
                    if lib: out.append(('%s/returned' % F.name, i.loc(), 'the value returned depends on the verbosity or debug level'))
                    else: vr = True
    return out, vo, vr
