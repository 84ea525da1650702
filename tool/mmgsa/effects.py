"""Interprocedural effect summaries: what memory visible to the caller a function may write, and which
external functions it reaches."""
import re
from .ir import *

# external functions without an effect on program data (they only produce messages or compute a value)
PRINT = {'fprintf', 'printf', 'puts', 'putchar', 'fflush', 'fputs', 'fputc', 'fwrite', 'perror', 'vfprintf', 'strerror', 'putc'}
MATH = {'exp', 'log', 'sqrt', 'pow', 'fabs', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'atan2', 'floor', 'ceil', 'abs', 'labs', 'llabs',
        'strcmp', 'strncmp', 'strlen', 'strstr', 'strchr', 'strrchr', 'atoi', 'atof', 'strtol', 'strtod', 'memcmp', 'isnan', 'isfinite', 'fmax', 'fmin', 'lround',
        'round', 'cbrt', 'log2', 'log10', 'copysign', 'hypot', 'fmod', 'strpbrk', 'strcasecmp', 'isspace', 'isdigit', 'toupper', 'tolower', '__ctype_b_loc', '__errno_location', 'feof', 'ferror', 'ftell'}
ASSERT = {'__assert_fail', 'abort'}
WRITES0 = {'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf', 'snprintf', 'llvm.memcpy.p0.p0.i64',
           'llvm.memset.p0.i64', 'llvm.memmove.p0.p0.i64', 'vsnprintf'}

def root(e):
    """root of an access path: ('arg',n) | ('loc',id) | ('g',name) | ('call',..) | ('phi',..) ; plus whether a load was crossed"""
    crossed = False
    while True:
        if e[0] in ('fld', 'idx'): e = e[1]
        elif e[0] == 'ld': e = e[1]; crossed = True
        else: return e, crossed

def place(e):
    """abstract place of an address: 'struct.field', 'global', or element type"""
    x = e
    while x[0] == 'idx': x = x[1]
    if x[0] == 'fld': return '%s.%s' % (x[2].replace('struct.', ''), x[3])
    if x[0] == 'g': return '@' + x[1]
    if x[0] == 'ld':
        y = place(x[1])
        return '*' + y if y else None
    return None

def is_local_addr(F, e):
    """address inside the function's own frame (through phi of local addresses too)"""
    r, crossed = root(e)
    return r[0] == 'loc' and not crossed

class Effects:
    """per function: the set of effects, each ('w', place) | ('warg', n, place) | ('io',) | ('ext', name) ..."""
    def __init__(self, P, flags=()):
        self.P = P; self.flags = set(flags)
        self.memo = {}
    def own(self, F):
        out = []
        for i in F.ins():
            out += self.of(F, i)
        return out
    def of(self, F, i):
        """effects of one instruction (calls: the callee's summary mapped to the caller)"""
        P = self.P
        if i.op == 'store':
            return self._write(F, F.expr(i.a[0][1]))
        if i.op in ('call', 'invoke'):
            c = F.callee(i)
            if c and (c.startswith('llvm.dbg') or c.startswith('llvm.lifetime')): return []
            if c in WRITES0: return self._write(F, F.expr(i.a[1][0]))
            ts = P.targets(F, i)
            if not ts:
                if c in PRINT: return [('io',)]
                if c in MATH or (c and c.startswith('llvm.') and not c.startswith('llvm.mem')): return []
                if c in ASSERT: return []
                return [('ext', c or '?')]
            out = []
            for t in ts:
                for e in self.summary(t):
                    if e[0] == 'warg':
                        if e[1] < len(i.a[1]):
                            a = F.expr(i.a[1][e[1]])
                            r, crossed = root(a)
                            if r[0] == 'null': continue          # nothing is written through a null pointer
                            if r[0] == 'loc' and not crossed and not e[3]: continue
                            if r[0] == 'arg': out.append(('warg', r[1], e[2], e[3] or crossed))
                            else: out.append(('w', e[2]))
                        else: out.append(('w', e[2]))
                    else: out.append(e)
            return out
        return []
    def _write(self, F, p):
        if p[0] == 'phi' or p[0] == 'sel':
            # union over the incoming addresses
            out = []
            for q in phi_leaves(F, p):
                out += self._write1(F, q)
            return out
        return self._write1(F, p)
    def _write1(self, F, p):
        r, crossed = root(p)
        if r[0] == 'loc' and not crossed: return []
        pl = place(p) or '*'
        if r[0] == 'phi':
            rs = phi_roots(F, r)
            if rs and all(x[0] == 'loc' for x in rs) and not crossed: return []
        if r[0] == 'g' and not crossed:
            if r[1] in self.flags: return [('flag', r[1])]
            return [('w', pl)]
        if r[0] == 'arg': return [('warg', r[1], pl, crossed)]
        if r[0] == 'call' and r[1] in ('malloc', 'calloc', 'mycalloc', 'mymalloc'): return [('w', pl)]
        return [('w', pl)]
    def summary(self, F):
        k = F.key()
        if k in self.memo: return self.memo[k]
        self.memo[k] = set()
        # iterate to a fixpoint over recursion (two passes are enough for set union over SCCs of this size)
        for _ in range(3):
            s = set(self.own(F))
            if s == self.memo[k]: break
            self.memo[k] = s
        return self.memo[k]

def phi_leaves(F, e, seen=None):
    seen = set() if seen is None else seen
    if e[0] == 'sel': return phi_leaves(F, e[2], seen) + phi_leaves(F, e[3], seen)
    if e[0] != 'phi': return [e]
    if e[1] in seen: return []
    seen.add(e[1])
    out = []
    for v, b in F.by_id[e[1]].a[0]: out += phi_leaves(F, F.expr(v), seen)
    return out
def phi_roots(F, e):
    seen = set(); out = set(); st = [e]
    while st:
        x = st.pop()
        r, c = root(x)
        if c: out.add(mk('?', 'ld')); continue
        if r[0] in ('phi', 'sel'):
            if r in seen: continue
            seen.add(r)
            st += phi_leaves(F, r)
        else: out.add(r)
    return out
def contains(e, pred, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(e, E): return False
    if e in memo: return memo[e]
    memo[e] = False
    r = pred(e) or any(contains(x, pred, memo) for x in e[1:])
    memo[e] = r
    return r
def subexprs(e, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(e, E) or e in seen: return
    seen.add(e); yield e
    for x in e[1:]: yield from subexprs(x, seen)


ALLOCS = ('mycalloc', 'mymalloc', 'myrealloc', 'calloc', 'malloc', 'realloc')
class OwnEffects(Effects):
    """effects on memory that exists before the call and goes on existing: what a function does to blocks it allocates itself -- reached from a
    register, or through a local structure -- is left out, as are allocation, release of such blocks, and (with skip) given places"""
    def __init__(self, P, flags=(), skip=(), failing=None):
        super().__init__(P, flags); self.skip = set(skip); self.failing = failing; self.fb = {}
    def fresh(self, F, r):
        if r[0] != 'call': return False
        if r[1] in ALLOCS or r[1] == 'strdup': return True
        # a routine of the program that returns only what it has allocated itself
        k = ('fresh', r[1])
        if k not in self.fb:
            self.fb[k] = False
            ts = [G for G in self.P.fns.values() if G.name == r[1]]
            def ret(G):
                vs = [v for b in G.blocks if b[-1].op == 'ret' and b[-1].a and b[-1].a[0] for v in (b[-1].a[0] if isinstance(b[-1].a[0], list) else [b[-1].a[0]])]
                rs = [x for v in vs for x, k in self.roots(G, G.expr(v))] if vs else []
                return bool(rs) and all(x[0] == 'null' or self.fresh(G, x) for x in rs)
            self.fb[k] = len(ts) == 1 and ts[0].ret == 'ptr' and ret(ts[0])
        return self.fb[k]
    def own_local(self, F, r):
        """a local structure other than a mesh or solution"""
        return r[0] == 'loc' and re.match(r'struct\.(?!MMG5_(Mesh|Sol|Info)\b)', str(F.by_id[r[1]].a[0])) is not None
    def _write1(self, F, p):
        r, crossed = root(p)
        if self.fresh(F, r) or self.own_local(F, r): return []
        if r[0] == 'phi':
            rs = self.roots(F, r)
            if not any(x[0] not in ('arg', 'loc', 'null') and not self.fresh(F, x) for x, _ in rs) and not any(x[0] == 'loc' and k and not self.own_local(F, x) for x, k in rs):
                pl = place(p) or '*'
                return [('warg', x[1], pl, k or crossed) for x, k in sorted(rs, key=str) if x[0] == 'arg' and pl not in self.skip]
        return [e for e in super()._write1(F, p) if (e[2] if e[0] == 'warg' else e[1]) not in self.skip]
    def roots(self, F, e):
        """(root, load crossed) of every value a pointer variable takes"""
        out = set(); seen = set(); st = [(e, False)]
        while st:
            x, k = st.pop()
            if (x, k) in seen: continue
            seen.add((x, k))
            r, c = root(x)
            if r[0] in ('phi', 'sel'): st += [(y, k or c) for y in phi_leaves(F, r)]
            else: out.add((r, k or c))
        return out
    def own(self, F):
        if self.failing is not None and F.key() not in self.fb: self.fb[F.key()] = self.failing(F)
        fb = self.fb.get(F.key(), ())
        return [e for b in range(len(F.blocks)) if b not in fb for i in F.blocks[b] for e in self.of(F, i)]
    def of(self, F, i):
        if i.op in ('call', 'invoke'):
            c = F.callee(i)
            if c in ('mycalloc', 'mymalloc', 'calloc', 'malloc', 'log1p'): return []
            if c in ('myfree', 'free', 'myrealloc', 'realloc'):
                a = F.expr(i.a[1][0])
                return [e for e in self._write(F, a)]
            ts = self.P.targets(F, i)
            if ts:
                out = []
                for t in ts:
                    for e in self.summary(t):
                        if e[0] == 'warg' and e[1] < len(i.a[1]):
                            rs = phi_leaves(F, F.expr(i.a[1][e[1]])); tr = []
                            for a in rs:
                                r, crossed = root(a)
                                if self.fresh(F, r) or self.own_local(F, r) or r[0] == 'null': continue
                                if r[0] == 'arg': tr.append(('warg', r[1], e[2], e[3] or crossed))
                                elif r[0] == 'loc' and not crossed and not e[3]: continue
                                else: tr.append(('w', e[2]))
                            out += tr
                        else: out.append(e)
                return out
        return super().of(F, i)
