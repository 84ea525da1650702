"""Every variable that outlives a call (globals and statics that are not constant) is located with all its uses and has to be one of: a table that nobody writes;
a switch for messages (what its value decides contains nothing but output and other switches, in the routine and in the routines that get its address);
a text buffer whose content is only printed; or a pointer to an operator, which every main routine sets, on every path, before it or anything it
calls reads it (interprocedural must-assign / upward-exposed-use analysis).  Calls of routines that depend on time, random numbers, the environment or the process are
allowed only in the chronometer, whose results are only printed, and for the default memory budget.  Addresses are never turned into numbers."""
import glob, os, re
from ..own import *
from ..effects import Effects, PRINT, MATH
from ..build import Broken, REPO
from .a06 import Side
from .a05 import is_fortran_unit

NONDET = {'time', 'clock', 'rand', 'srand', 'random', 'srandom', 'rand_r', 'drand48', 'lrand48', 'mrand48', 'erand48', 'srand48', 'getpid', 'getppid', 'getenv', 'secure_getenv', 'gettimeofday', 'clock_gettime',
          'getrusage', 'times', 'localtime', 'gmtime', 'ctime', 'asctime', 'strftime', 'getcwd', 'gethostname', 'uname', 'getuid', 'getlogin', 'sysconf', 'sysinfo', 'getpagesize', 'tmpnam', 'tempnam', 'tmpfile', 'mkstemp',
          'getrandom', 'getentropy', 'arc4random', 'pthread_self', 'sbrk', 'mallinfo', 'strtok', 'localeconv', 'get_nprocs', 'sched_getcpu', 'difftime', 'getloadavg', 'isatty', 'ttyname', 'times'}
# (routine of the library function, callee): why it may
ALLOWED = {('chrono', 'gettimeofday'), ('chrono', 'getrusage'), ('chrono', 'times'), ('chrono', 'clock'), ('MMG5_memSize', 'sysconf')}
# the routines documented to work on operators chosen by the caller with MMG?_setfunc
CALLER = {'MMG3D_searchqua', 'MMG3D_searchlen', 'MMG2D_doSol', 'MMG3D_doSol', 'MMGS_doSol'}

def headers():
    out = set()
    for f in glob.glob(os.path.join(REPO, 'src', '*', 'libmmg*.h')):
        if 'private' in f: continue
        out |= set(re.findall(r'\b(MMG\w*)\s*\(', open(f, errors='replace').read()))
    return out

def run(c):
    c.rule(__doc__); api = headers()
    if len(api) < 250: raise Broken('only %d public routines' % len(api))
    for variant in ('dbg', 'ndebug'): one(c, c.prog(variant), variant, api)
    c.floor('persistent variables (dbg)', 200); c.floor('message switches (dbg)', 140); c.floor('operator pointers (dbg)', 40); c.floor('main routines (dbg)', 8)

class Uses:
    """the uses of a variable through any register or constant expression that holds an address in it"""
    def __init__(self, P):
        self.P = P; self.direct = {}
        for F in P.fns.values():
            for i in F.ins():
                for o in operands(i):
                    for g in names(o): self.direct.setdefault(key(P, F, g), []).append((F, i))
    def of(self, k):
        out = []; done = set()
        for F, i in self.direct.get(k, ()):
            if (F.key(), i.id, i.bb, i.pos) in done: continue
            done.add((F.key(), i.id, i.bb, i.pos))
            addr = [o for o in operands(i) if any(key(self.P, F, g) == k for g in names(o))]
            self.walk(F, i, addr, out, set())
        return out
    def walk(self, F, i, addr, out, seen):
        if (i.op == 'getelementptr' and i.a[1] in addr) or i.op in ('phi', 'select') or i.op in CASTS:
            if i.id in seen: return
            seen.add(i.id)
            for u in F.ins():
                if i.id in [o for o in operands(u) if isinstance(o, int)]: self.walk(F, u, [i.id], out, seen)
        else: out.append((F, i, addr))

def names(o, depth=0):
    """the variables a constant mentions"""
    if isinstance(o, list):
        for x in o: yield from names(x, depth + 1)
    elif isinstance(o, dict):
        if 'g' in o: yield o['g']
        for x in o.values():
            if isinstance(x, (list, dict)): yield from names(x, depth + 1)

def key(P, F, g):
    return (F.unit, g) if (F.unit, g) in P.globals and P.globals[F.unit, g].get('internal') else ('', g)

SIDES = {}
def region(P, E, F, b):
    """blocks between a decision and the place where its sides meet (ways that only lead to a failed assertion left out)"""
    k = (id(P), F.key())
    if k not in SIDES: SIDES[k] = Side(P, F, E, ())
    S = SIDES[k]
    if b not in S.reach: return set(), -1
    stop = S.ipd.get(b); seen = set(); w = list(S.succ[b])
    while w:
        x = w.pop()
        if x == stop or x in seen or x == b: continue
        seen.add(x); w += S.succ[x]
    return seen, stop

def one(c, P, variant, api):
    U = Uses(P); E = Effects(P)
    mains = {F.unit for F in P.fns.values() if F.name == 'main'}
    # the persistent variables
    G = {}
    for g in P.globals.values():
        if g['const'] or g['decl'] or '.str' in g['name'] or g['name'].startswith(('llvm.', '__')): continue
        if g['unit'] in mains: continue
        k = (g['unit'], g['name']) if g['internal'] else ('', g['name'])
        G[k] = g
    switches = {}; ops = set(); rest = []
    for k, g in sorted(G.items()):
        c.ob('persistent variables (%s)' % variant, '%s (%s)' % (g['name'], g['unit']) if variant == 'dbg' else None)
        us = U.of(k)
        wr = [(F, i, a) for F, i, a in us if writes(P, E, F, i, a)]
        if not wr: c.count('tables nobody writes (%s)' % variant); continue
        if all(i.op == 'store' and isinstance(i.a[0][0], dict) and ('fn' in i.a[0][0] or 'n' in i.a[0][0]) for F, i, a in wr) and all(i.op in ('store', 'load') for F, i, a in us):
            ops.add(g['name']); c.count('operator pointers (%s)' % variant); continue
        if 'x i8]' in str(g['ty']):
            bad = [x for x in us if not text(P, *x)]
            if not bad: c.count('text buffers (%s)' % variant); continue
            F, i, a = bad[0]; c.violation('%s:buffer' % g['name'], i.loc(), 'the content of the persistent buffer %s is used for more than a message in %s' % (g['name'], F.name)); continue
        switches[k] = (g, us)
    cells = set(switches)
    for k, (g, us) in sorted(switches.items()):
        bad = None
        for F, i, a in us:
            bad = use(P, E, U, cells, F, i, a, set())
            if bad: break
        if bad: c.violation('%s:kept' % g['name'], bad[1].loc(), '%s keeps a value from call to call, and it is used for more than choosing messages (%s: %s)' % (g['name'], bad[0].name, bad[2]))
        c.count('message switches (%s)' % variant)
    renewal(c, P, ops, variant, api, mains)
    for F in P.fns.values():
        for i in F.ins():
            if i.op == 'ptrtoint':
                us = [u for u in F.ins() if i.id in [o for o in operands(u) if isinstance(o, int)]]
                if not all(u.op == 'sub' or u.op == 'and' for u in us): c.violation('%s:ptrtoint' % F.name, i.loc(), '%s turns an address into a number' % F.name)
            if i.op in ('call', 'invoke') and F.callee(i) in NONDET:
                c.ob('calls that depend on the process (%s)' % variant, '%s %s' % (F.name, F.callee(i)) if variant == 'dbg' else None)
                if (F.name, F.callee(i)) in ALLOWED or F.unit in mains: continue
                if F.callee(i) == 'getenv' and not value(P, E, set(), F, i, [], set()): continue
                a = i.a[1][0] if i.a[1] else None
                s = P.globals.get((F.unit, a['g']), {}).get('init') if isinstance(a, dict) and 'g' in a else None
                if F.callee(i) == 'getenv' and isinstance(s, dict) and s.get('s', '').startswith('MMG_'): c.count('debugging variables (%s)' % variant); continue
                what = '%s("%s")' % (F.callee(i), s['s'].rstrip('\0')) if isinstance(s, dict) and 's' in s else F.callee(i)
                c.violation('%s:%s' % (F.name, what), i.loc(), '%s depends on %s' % (F.name, what))
    # the chronometer's numbers are only printed
    for F in P.fns.values():
        if F.unit in mains or F.name in ('chrono', 'tminit'): continue
        for i in F.ins():
            if i.op == 'load' and isinstance(i.a[0][0], int):
                e = F.expr(i.a[0][0])
                if e[0] == 'fld' and 'mytime' in e[2]:
                    c.ob('chronometer readings (%s)' % variant, None)
                    for u in F.ins():
                        if i.id in [o for o in operands(u) if isinstance(o, int)] and not (u.op == 'call' and F.callee(u) in PRINT | {'printim'}):
                            c.violation('%s:chrono' % F.name, u.loc(), '%s uses a time for something other than a message' % F.name)

def writes(P, E, F, i, addr):
    if i.op == 'store': return i.a[0][1] in addr or i.a[0][0] in addr and not lent(P, E, F, i)
    if i.op in ('call', 'invoke'):
        f = F.callee(i)
        if f and (f.startswith('llvm.mem') or f in ('memcpy', 'memset', 'memmove', 'strcpy', 'strcat', 'sprintf', 'snprintf', 'strncpy', 'strncat')): return i.a[1][0] in addr
        if f in PRINT | MATH: return False
        T = P.targets(F, i)
        if not T: return True
        n = [k for k, a in enumerate(i.a[1]) if a in addr]
        return any(e[0] == 'warg' and e[1] in n for t in T for e in E.summary(t))
    if i.op == 'ret': return True
    return False

def text(P, F, i, addr):
    """a use of a text buffer: written by the string routines, or its address returned to callers that print it"""
    if i.op in ('call', 'invoke'):
        f = F.callee(i)
        return f in PRINT or f in ('strcpy', 'strcat', 'sprintf', 'snprintf', 'strncpy', 'strncat', 'memset', 'strlen', 'memcpy', 'strcmp') or f.startswith('llvm.mem')
    if i.op == 'store': return i.a[0][1] in addr
    if i.op == 'load': return True
    if i.op == 'ret':
        for H in P.fns.values():
            for j in H.calls(F.name):
                for u in H.ins():
                    if j.id in [o for o in operands(u) if isinstance(o, int)] and not (u.op == 'call' and H.callee(u) in PRINT): return False
        return True
    return i.op == 'icmp'

def use(P, E, U, cells, F, i, addr, seen):
    """what a use of a switch does beyond messages: None or (function, instruction, why)"""
    if i.op == 'store':
        if i.a[0][0] not in addr: return None
        return None if lent(P, E, F, i) else (F, i, 'its address is kept')
    if i.op == 'load': return value(P, E, cells, F, i, addr, set())
    if i.op in ('call', 'invoke'):
        T = P.targets(F, i)
        if not T: return None if F.callee(i) in PRINT else (F, i, 'its address is given away')
        for t in T:
            for n, a in enumerate(i.a[1]):
                if a in addr and (t.key(), n) not in seen:
                    seen.add((t.key(), n)); out = []; w = set()
                    for u in t.ins():
                        if n in [o for o in operands(u) if isinstance(o, int)]: U.walk(t, u, [n], out, w)
                    for F2, j, a2 in out:
                        r = use(P, E, U, cells, F2, j, a2, seen)
                        if r: return r
        return None
    if i.op == 'icmp': return None
    return (F, i, i.op)

def lent(P, E, F, i):
    """the address of the variable is handed out through a parameter, and the callers only read it"""
    n = i.a[0][1]
    if not isinstance(n, int) or n >= F.nargs: return False
    for G in P.fns.values():
        for j in G.calls(F.name):
            x = j.a[1][n]; y = G.by_id.get(x) if isinstance(x, int) else None
            if y is None or y.op != 'alloca': return False
            for l in G.ins():
                if x not in [o for o in operands(l) if isinstance(o, int)] or l is j: continue
                if l.op == 'call' and (G.callee(l) or '').startswith('llvm.'): continue
                if l.op != 'load': return False
                for u in G.ins():
                    if l.id not in [o for o in operands(u) if isinstance(o, int)]: continue
                    if u.op == 'getelementptr':
                        if any(w.op != 'load' and (w.op != 'call' or writes(P, E, G, w, [u.id])) for w in G.ins() if u.id in [o for o in operands(w) if isinstance(o, int)]): return False
                    elif u.op != 'load' and (u.op != 'call' or writes(P, E, G, u, [l.id])): return False
    return True

def value(P, E, cells, F, i, addr, seen):
    """where the value of a switch goes"""
    if i.id in seen: return None
    seen.add(i.id)
    for u in F.ins():
        if i.id not in [o for o in operands(u) if isinstance(o, int)]: continue
        if u.op in ('icmp', 'phi', 'xor', 'and', 'or', 'add', 'sub', 'select') or u.op in CASTS:
            r = value(P, E, cells, F, u, addr, seen)
            if r: return r
        elif u.op == 'store':
            if not switch(P, F, u.a[0][1], cells, addr): return (F, u, 'stored elsewhere')
        elif u.op in ('call', 'invoke'):
            if F.callee(u) not in PRINT: return (F, u, 'passed to %s' % (F.callee(u) or 'a routine'))
        elif u.op in ('br', 'switch'):
            r = quiet(P, E, cells, F, u, addr)
            if r: return r
        else: return (F, u, u.op)
    return None

def switch(P, F, a, cells, addr):
    if a in addr: return True
    return isinstance(a, dict) and 'g' in a and key(P, F, a['g']) in cells

def quiet(P, E, cells, F, br, addr):
    """does the decision only choose messages?"""
    blocks, stop = region(P, E, F, br.bb)
    if stop is None and blocks and not void(F, blocks): return (F, br, 'decides what is returned')
    for b in blocks:
        for i in F.blocks[b]:
            if i.op == 'store':
                if not switch(P, F, i.a[0][1], cells, addr): return (F, i, 'decides a store')
            elif i.op in ('call', 'invoke'):
                f = F.callee(i)
                if f in PRINT | MATH or f and f.startswith('llvm.') and not f.startswith('llvm.mem'): continue
                if not P.targets(F, i) or any(e[0] not in ('io', 'flag') for e in E.of(F, i) if not local(F, i, e) and not tags(P, e)): return (F, i, 'decides a call of %s' % (f or 'a routine'))
            elif i.op == 'ret' and F.ret != 'void': return (F, i, 'decides what is returned')
    for b in blocks | {stop}:
        for i in F.blocks[b] if b not in (None, -1) else ():
            if i.op != 'phi': break
            vs = {str(v) for v, q in i.a[0] if q in blocks or q == br.bb}
            if b == stop and len(vs) > 1 and not bool_only(F, i): 
                if used(F, i): return (F, i, 'selects a value')
    return None

def void(F, blocks): return F.ret == 'void'
def tags(P, e): return e[0] == 'w' and 'tags_name' in str(e)
def local(F, i, e): return False
def used(F, p):
    return any(p.id in [o for o in operands(u) if isinstance(o, int)] for u in F.ins())
def bool_only(F, p): return p.ty == 'i1'

def renewal(c, P, ops, variant, api, mains):
    """upward-exposed reads of the operator pointers"""
    fns = list(P.fns.values()); TOP = frozenset(ops)
    gen = {F.key(): TOP for F in fns}; use = {F.key(): frozenset() for F in fns}
    def analyse(F, nul=None):
        n = len(F.blocks); IN = [None] * n; IN[0] = frozenset(); w = [0]; ue = {}; OUT = None
        while w:
            b = w.pop(); s = set(IN[b])
            for i in F.blocks[b]:
                if i.op == 'load' and isinstance(i.a[0][0], dict) and i.a[0][0].get('g') in ops:
                    if i.a[0][0]['g'] not in s: ue.setdefault(i.a[0][0]['g'], i)
                elif i.op == 'store' and isinstance(i.a[0][1], dict) and i.a[0][1].get('g') in ops: s.add(i.a[0][1]['g'])
                elif i.op in ('call', 'invoke'):
                    T = P.targets(F, i)
                    if T:
                        for t in T:
                            for x in use[t.key()] - s: ue.setdefault(x, i)
                        s |= frozenset.intersection(*[gen[t.key()] for t in T])
                elif i.op == 'ret': OUT = frozenset(s) if OUT is None else OUT & s
            ss = F.succs[b]; t = F.blocks[b][-1]
            if nul and t.op == 'br' and t.a[0] is not None and isinstance(t.a[0], int):
                j = F.by_id.get(t.a[0])
                if j is not None and j.op == 'icmp' and j.a[0] in ('eq', 'ne') and isinstance(j.a[2], dict) and 'n' in j.a[2] and F.expr(j.a[1]) in nul:
                    ss = [t.a[1] if (j.a[0] == 'eq') == nul[F.expr(j.a[1])] else t.a[2]]
            for x in ss:
                y = frozenset(s) if IN[x] is None else IN[x] & s
                if y != IN[x]: IN[x] = y; w.append(x)
        return (OUT if OUT is not None else TOP), ue
    ch = True
    while ch:
        ch = False
        for F in fns:
            g, u = analyse(F)
            if (g, frozenset(u)) != (gen[F.key()], use[F.key()]): gen[F.key()] = g; use[F.key()] = frozenset(u); ch = True
    for F in fns:
        if F.name not in api and F.name != 'main' or is_fortran_unit(F.unit): continue
        reach = use[F.key()]
        c.ob('main routines (%s)' % variant if gen[F.key()] else 'public routines that need no operator (%s)' % variant, F.name if gen[F.key()] and variant == 'dbg' else None)
        if not reach or F.name in CALLER: continue
        # a caller's structure that may be absent
        args = {F.expr(j.a[1]) for j in F.ins() if j.op == 'icmp' and j.a[0] in ('eq', 'ne') and isinstance(j.a[2], dict) and 'n' in j.a[2] and F.expr(j.a[1])[0] == 'arg'}
        bad = {}
        for k in range(1 << len(args)):
            bad.update(analyse(F, {a: bool(k >> n & 1) for n, a in enumerate(sorted(args, key=str))})[1])
        for x, i in sorted(bad.items()):
            c.violation('%s:%s' % (F.name, x), i.loc(), '%s can use the operator %s without having chosen it: the one left by an earlier call is used' % (F.name, x))
