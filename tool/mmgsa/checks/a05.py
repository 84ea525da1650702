"""Fortran entry points are exact forwarders: in every Fortran unit (*f.c, *f_*.c) each entry point makes one call
into the C interface, to the routine of the same name; every argument of that call is the Fortran argument of the
same rank (dereferenced exactly when the C prototype takes it by value, string arguments copied with their length),
no Fortran argument is unused, the call is made on every path and its return value is stored, unchanged, in the last
argument; the alternative manglings forward all their arguments in order."""
from ..effects import *
import re

def is_fortran_unit(u): return re.search(r'f(_\w+)?\.c$', u) and re.search(r'(functionsf|libmmg\w*f|toolsf)', u)
ALLOC = ('malloc', 'calloc', 'mycalloc', 'mymalloc')
HELPER = {'malloc', 'calloc', 'free', 'strncpy', 'perror', 'exit', 'fprintf', 'mycalloc', 'mymalloc', 'myfree', 'memcpy', 'strcpy', 'printf', '__assert_fail',
          'strnlen', 'strlen'}

def run(c):
    P = c.prog('ndebug', True)
    c.rule(__doc__)
    units = [u for u in P.by_unit if is_fortran_unit(u)]
    for u in units:
        c.count('fortran units')
        fns = {F.name: F for F in P.by_unit[u] if not F.internal}
        low = {}
        for n, F in fns.items(): low.setdefault(n.rstrip('_').lower(), []).append(F)
        for base, fl in low.items():
            names = sorted(F.name for F in fl)
            impl = [F for F in fl if F.name.upper() == F.name]
            if not impl: impl = fl[:1]
            impl = impl[0]
            for F in fl:
                if F is impl: continue
                if F.vararg: continue
                alias(c, P, F, impl)
            if impl.vararg: c.count('variadic entries'); variadic(c, P, fl); continue
            wrapper(c, P, impl, base)
    c.floor('fortran entry points', 380); c.floor('arguments forwarded', 1100); c.floor('alias manglings', 1000); c.floor('fortran units', 10)

def real_calls(P, F):
    return [i for i in F.calls() if not ((F.callee(i) or '').startswith('llvm.')) and F.callee(i) not in HELPER]

def alias(c, P, F, impl):
    cs = real_calls(P, F)
    ok = len(cs) == 1 and F.callee(cs[0]) == impl.name and [F.expr(x) for x in cs[0].a[1]] == [mk('arg', k) for k in range(F.nargs)] and F.nargs == impl.nargs
    extra = [i for i in F.ins() if i.op == 'store']
    c.ob('alias manglings', F.name)
    if not ok or extra or not must(F, cs[0] if cs else None):
        # an alias may also implement the wrapper itself
        w = wrapper(c, P, F, F.name.rstrip('_').lower())

def must(F, call):
    """the call lies on every path from entry to a return (allocation-failure exits aside)"""
    if call is None: return False
    seen = F.reachable(0, avoid={call.bb}) if call.bb != 0 else set()
    for b in seen:
        if F.blocks[b][-1].op == 'ret': return False
    return True

def must_or_alloc(P, F, calls):
    """every entry-to-return path passes the call, except paths on the failure edge of an allocation test"""
    avoid = {i.bb for i in calls}
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen or b in avoid: continue
        seen.add(b)
        t = F.blocks[b][-1]
        if t.op == 'ret': return False
        su = list(F.succs[b])
        if t.op == 'br' and t.a[0] is not None:
            e = F.expr(t.a[0])
            x = null_test(e)
            if x is not None and any(a[0] == 'call' and a[1] in ALLOC for a in subexprs(x[0])):
                # drop the edge on which the allocation is null
                su = [t.a[2] if x[1] else t.a[1]]
        st += su
    return True

def null_test(e):
    """(expr, True if the true edge means null)"""
    if e[0] == 'cmp' and e[3][0] in ('null',) and e[1] in ('eq', 'ne'): return (e[2], e[1] == 'eq')
    if e[0] == 'cmp' and e[3] == ('c', 0) and e[1] in ('eq', 'ne') and e[2][0] == 'call': return (e[2], e[1] == 'eq')
    return None

def variadic(c, P, fl):
    for F in fl:
        cs = real_calls(P, F)
        names = [F.callee(i) for i in cs]
        want = F.name.rstrip('_').lower()
        tgt = [n for n in names if n and n.lower() == want + '_var']
        c.ob('fortran entry points', F.name); c.ob('variadic entry points', F.name)
        if len(tgt) != 1 or len(cs) != 1:
            c.violation('%s:variadic' % F.name, F.loc(), 'the variadic entry %s does not forward to its C counterpart (calls %s)' % (F.name, names)); continue
        va = [i for i in F.calls() if (F.callee(i) or '').startswith('llvm.va_start')]
        if not va or not F.idominates(va[0], cs[0]) or P.need(tgt[0]).nargs != len(cs[0].a[1]):
            c.violation('%s:variadic' % F.name, F.loc(), 'argument list not forwarded')

def callee_name(F, i):
    n = F.callee(i)
    if n: return n
    e = F.expr(i.a[0])
    if e[0] == 'ld' and e[1][0] == 'g': return e[1][1]
    return None

def wrapper(c, P, F, base):
    c.ob('fortran entry points', F.name)
    cs = real_calls(P, F)
    key = F.name
    names = {callee_name(F, i) for i in cs}
    if len(names) != 1:
        c.violation(key + ':calls', F.loc(), 'Fortran entry %s must call exactly one C routine, calls %s' % (F.name, sorted(map(str, names)))); return
    n = names.pop()
    if n is None or n.lower() != base:
        c.violation(key + ':target', cs[0].loc(), 'Fortran entry %s forwards to %s' % (F.name, n)); return
    if F.callee(cs[0]): C = P.need(n)
    else:
        ts = P.fptr.get(n)
        if not ts: raise Broken('no routine is ever assigned to %s' % n)
        C = ts[0]
    if not must_or_alloc(P, F, cs):
        c.violation(key + ':path', cs[0].loc(), 'Fortran entry %s does not call %s on every path' % (F.name, n))
    for i in cs:
        if F.reaches_again(i) or any(j is not i and reach_from(F, i, j) for j in cs):
            c.violation(key + ':loop', i.loc(), 'Fortran entry %s may call %s several times' % (F.name, n))
    for call in cs: one_call(c, P, F, C, n, call, key)
    # stores: only the return value in the last argument, and the terminator of string copies
    rets = []
    for i in F.ins():
        if i.op != 'store': continue
        p = F.expr(i.a[0][1]); r, cr = root(p)
        if r[0] == 'loc' and not cr: continue
        if p == ('arg', F.nargs - 1) and C.ret != 'void':
            if status_ok(F, cs, F.expr(i.a[0][0]), i):
                rets.append(i); continue
        if r[0] == 'call' and r[1] in ALLOC: continue
        if r[0] == 'phi' and all(x[0] == 'null' or (x[0] == 'call' and x[1] in ALLOC) for x in phi_roots(F, r)): continue
        c.violation(key + ':store', i.loc(), '%s writes %s = %s besides the status' % (F.name, pp(F, p), pp(F, F.expr(i.a[0][0]))))
    if C.ret != 'void':
        for call in cs:
            c.ob('return values delivered', F.name)
            if not any(i.bb == call.bb or postdom(F, i.bb, call.bb) for i in rets):
                c.violation(key + ':ret', call.loc(), '%s does not deliver the return value of %s in its last argument' % (F.name, n))
        fd, cd = norm(F.argdi[F.nargs - 1]), norm(C.retdi) + '*'
        if fd != cd and not (fd in ('int32_t*', 'int64_t*') and cd == 'int*'):
            c.violation(key + ':rettype', F.loc(), '%s: status argument type %s does not match the return type %s' % (F.name, F.argdi[-1], C.retdi))

def status_ok(F, cs, v, at, seen=()):
    """v is the result of the forwarded call, or the failure code on a way on which the call is not made"""
    if v[0] == 'sel': return False
    if v[0] == 'call': return any(v[2] == k.id for k in cs)
    if v == ('c', 0): return not any(reach_from(F, k, at) or (k.bb == at.bb and k.pos < at.pos) for k in cs)
    if v[0] == 'phi':
        if v[1] in seen: return True
        return all(status_ok(F, cs, F.expr(x), F.blocks[b][-1], seen + (v[1],)) for x, b in F.by_id[v[1]].a[0])
    return False

def reach_from(F, i, j):
    if i.bb == j.bb and i.pos < j.pos: return True
    seen = set(); st = list(F.succs[i.bb])
    while st:
        b = st.pop()
        if b == j.bb: return True
        if b in seen: continue
        seen.add(b); st += F.succs[b]
    return False

def null_on_path(F, call, k):
    """the call is only reached when Fortran argument k is a null pointer"""
    for (a, s) in F.cdeps.get(call.bb, ()):
        t = F.blocks[a][-1]
        if t.op != 'br' or t.a[0] is None: continue
        x = null_test(F.expr(t.a[0]))
        if x and x[0] == ('arg', k) and s == (t.a[1] if x[1] else t.a[2]): return True
    return False

SMALL = {'int8_t', 'uint8_t', 'char', 'int16_t', 'uint16_t'}
def one_call(c, P, F, C, n, call, key):
    k = 0
    last = F.nargs - 1 if C.ret != 'void' else F.nargs
    for j, a in enumerate(call.a[1]):
        e = F.expr(a)
        if k >= last:
            c.violation(key + ':args', call.loc(), 'argument %d of %s has no Fortran counterpart' % (j + 1, n)); return
        fd, cd = norm(F.argdi[k]), norm(C.argdi[j]) if j < len(C.argdi) else '...'
        c.ob('arguments forwarded', '%s: %s -> %s arg %d' % (F.name, pp(F, e), n, j))
        if fd == 'char*' and cd == 'char*':
            if string_copy(F, call, e, k): k += 2; continue
            c.violation(key + ':string%d' % j, call.loc(), '%s: string argument %d of %s is not a terminated copy of Fortran argument %d with its length' % (F.name, j + 1, n, k + 1)); return
        if fd == cd: want = mk('arg', k)
        elif fd == cd + '*': want = mk('ld', mk('arg', k))
        elif fd == 'int*' and cd in SMALL: want = mk('ld', mk('arg', k))
        else:
            c.violation(key + ':type%d' % j, call.loc(), '%s: Fortran argument %d (%s) does not correspond to argument %d of %s (%s)' % (F.name, k + 1, fd, j + 1, n, cd)); return
        if e == want: k += 1; continue
        if e == ('null',) and want[0] == 'ld' and null_on_path(F, call, k): k += 1; continue
        c.violation(key + ':arg%d' % j, call.loc(), '%s passes %s as argument %d of %s, expected %s' % (F.name, pp(F, e), j + 1, n, pp(F, want))); return
    if k != last:
        c.violation(key + ':unused', call.loc(), '%s: Fortran argument %d is not forwarded to %s' % (F.name, k + 1, n))

def norm(s): return s.replace('const ', '').replace('[]', '*').replace('MMG5_pMesh', 'MMG5_Mesh*').replace('MMG5_pSol', 'MMG5_Sol*').replace('MMG5_pPoint', 'MMG5_Point*')

def postdom(F, a, b):
    pd = F.ipdom
    while b is not None and b != -1:
        if a == b: return True
        nb = pd.get(b)
        if nb == b: return False
        b = nb
    return False

def string_copy(F, call, e, k):
    """e is a fresh buffer, filled by strncpy(buf, arg k, *arg k+1) and terminated at *arg k+1"""
    roots = phi_roots(F, e) if e[0] in ('phi', 'sel') else {e}
    if not all(x[0] == 'null' or (x[0] == 'call' and x[1] in ALLOC) for x in roots): return False
    ln = mk('ld', mk('arg', k + 1))
    cp = [i for i in F.calls('strncpy', 'memcpy') if F.expr(i.a[1][1]) == ('arg', k) and F.expr(i.a[1][2]) == ln]
    if not cp or not any(F.idominates(i, call) for i in cp): return False
    for i in F.ins():
        if i.op == 'store' and F.expr(i.a[0][0]) == ('c', 0):
            p = F.expr(i.a[0][1])
            if p[0] == 'idx' and p[2] == ln and F.idominates(i, call):
                # the buffer has room for the terminator
                return True
    return False
