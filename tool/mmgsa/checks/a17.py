"""For each switch (noinsert, noswap, nomove) the remeshing drivers are specialised for the case that it is on: conditional constant propagation
(with the constants callees can return) removes the branches that cannot be taken, and the call graph is followed only through what remains.
With noinsert no vertex creation or deletion may remain reachable (except the temporary vertex of a swap), with noswap no swap, with nomove no
store to the coordinates of a vertex reached through the elements of the mesh."""
import re
from ..absint import *
from ..build import Broken
from ..sccp import Inter

DRIVERS = ['MMG5_mmg3d1_delone', 'MMG5_mmg3d1_pattern', 'MMG5_mmgs1', 'MMG2D_mmg2d1n']
NEWDEL = re.compile(r'^MMG(3D|S|2D)_(new|del)Pt$')
RENUM = re.compile(r'^(MMG5_|MMG3D_|MMGS_|MMG2D_)?(swap(Tet|Tri|Nod|d|f|bin)|.*[rR]enum)')
def isswap(F):
    """an operation that changes an edge or face: a swap by name that rewrites vertices or creates elements"""
    return bool(re.search(r'(^|_)(swap|swp)', F.name)) and not RENUM.match(F.name) and writes_elements(F)

ELT = ('MMG5_Tetra', 'MMG5_Tria')
def writes_elements(F, depth=2):
    for i in F.ins():
        if i.op == 'store':
            e = F.expr(i.a[0][1])
            while e[0] == 'idx': e = e[1]
            if e[0] == 'fld' and e[3] == 'v' and any(k in str(e[2]) for k in ELT): return True
        elif i.op in ('call', 'invoke') and depth:
            f = F.callee(i)
            if f and f.startswith('llvm.memcpy'): return True
            if any(writes_elements(t, depth-1) for t in F.prog.targets(F, i)): return True
    return False

def coord_base(F, e):
    while e[0] == 'idx' and e[1][0] != 'fld': e = e[1]
    if e[0] == 'idx': e = e[1]
    if e[0] == 'fld' and e[3] == 'c' and 'Point' in str(e[2]): return e[1]
    return None

def index_kind(F, b):
    """point expression -> 'scratch' | 'elt' | 'param' | 'other'"""
    if b[0] == 'idx':
        k = b[2]
        if k == ('c', 0): return 'scratch'
        if has(k, lambda x: x[0] == 'fld' and x[3] == 'v' and any(q in str(x[2]) for q in ELT)): return 'elt'
        return 'loop' if counter(F, k) else 'other'
    if b[0] == 'arg': return 'param'
    if b[0] == 'ld': return 'scratch' if b[1][0] == 'fld' and b[1][3] == 'point' else 'other'
    if b[0] == 'phi':
        ks = set()
        for x, p in F.by_id[b[1]].a[0]:
            e = F.expr(x)
            if e != b: ks.add(index_kind(F, e))
        return 'elt' if 'elt' in ks else 'param' if 'param' in ks else 'other'
    return 'scratch' if b[0] == 'fld' and b[3] == 'point' else 'other'

def counter(F, k):
    return k[0] == 'phi' and any(F.expr(x) in (T(('add', k, ('c', 1))), T(('add', ('c', 1), k))) for x, p in F.by_id[k[1]].a[0])

def has(e, f):
    if not isinstance(e, tuple): return False
    if e and isinstance(e[0], str) and f(e): return True
    return any(has(x, f) for x in e[1:] if isinstance(x, tuple))

def pruned(P, flags, stop=lambda F: False):
    if isinstance(flags, str): flags = (flags,)
    def load(F, i):
        e = F.expr(i.a[0][0])
        return frozenset([1]) if e[0] == 'fld' and e[3] in flags and 'Info' in str(e[2]) else None
    I = Inter(P, load); reach = {}; w = []; sites = []; nbr = 0
    for n in DRIVERS:
        F = P.need(n); reach[F.key()] = None; w.append(F)
    while w:
        F = w.pop(0)
        S = I.get(F)
        for i in F.ins():
            if i.bb not in S.blocks: nbr += 1; continue
            sites.append((F, i))
            if i.op in ('call', 'invoke'):
                for t in P.targets(F, i):
                    if t.key() not in reach and not stop(t): reach[t.key()] = (F, i); w.append(t)
    return reach, sites, nbr

def chain(reach, F):
    out = [F.name]
    while reach.get(F.key()):
        F = reach[F.key()][0]; out.append(F.name)
    return ' <- '.join(out)

def run(c):
    c.rule(__doc__)
    P = c.prog('ndebug')
    base, s0, _ = pruned(P, '(none)')
    ops = {k for k in base if isswap(P.fns[k])}
    c.count('functions reachable from the remeshing drivers', len(base)); c.floor('functions reachable from the remeshing drivers', 150)
    c.count('swap routines', len(ops)); c.floor('swap routines', 6)
    nd = {k for k in base if NEWDEL.match(P.fns[k].name)}
    c.count('vertex creation / deletion routines', len(nd)); c.floor('vertex creation / deletion routines', 5)
    mv = [x for x in s0 if move(*x)]
    c.count('relocation stores', len(mv)); c.floor('relocation stores', 20)
    # insertion
    r, s, cut = pruned(P, 'noinsert', stop=lambda F: F.key() in ops)
    c.count('instructions cut off by noinsert', cut); c.floor('instructions cut off by noinsert', 50)
    for F, i in s:
        if i.op in ('call', 'invoke'):
            for t in P.targets(F, i):
                if t.key() in nd: c.violation('noinsert:%s:%s' % (F.name, t.name), i.loc(), 'with insertion disabled %s still reaches %s (%s)' % (F.name, t.name, chain(r, F)))
                else: c.ob('calls checked with insertion off')
    r, s, cut = pruned(P, 'noswap')
    c.count('instructions cut off by noswap', cut); c.floor('instructions cut off by noswap', 50)
    for F, i in s:
        if i.op in ('call', 'invoke'):
            for t in P.targets(F, i):
                if t.key() in ops: c.violation('noswap:%s:%s' % (F.name, t.name), i.loc(), 'with swapping disabled %s still calls %s (%s)' % (F.name, t.name, chain(r, F)))
                else: c.ob('calls checked with swapping off')
    r, s, cut = pruned(P, 'nomove')
    c.count('instructions cut off by nomove', cut); c.floor('instructions cut off by nomove', 50)
    for F, i in s:
        m = move(F, i)
        if m: c.violation('nomove:%s' % F.name, i.loc(), 'with relocation disabled %s still changes the coordinates of a vertex of the mesh (%s)' % (F.name, chain(r, F)))
        elif i.op == 'store': c.ob('stores checked with relocation off')
    # without insertion there are no new vertices whose coordinates could be set either
    r, s, cut = pruned(P, ('nomove', 'noinsert'), stop=lambda F: F.key() in ops)
    for F, i in s:
        if move(F, i, ('elt', 'param', 'loop', 'other')): c.violation('nomove:%s' % F.name, i.loc(), 'with insertion and relocation disabled %s still changes coordinates (%s)' % (F.name, chain(r, F)))
        elif i.op == 'store': c.ob('stores checked with insertion and relocation off')

def move(F, i, kinds=('elt', 'param', 'loop')):
    """does the instruction change coordinates of a vertex of the mesh?"""
    if i.op == 'store': e = F.expr(i.a[0][1])
    elif i.op == 'call' and (F.callee(i) or '').startswith('llvm.mem'): e = F.expr(i.a[1][0])
    else: return False
    b = coord_base(F, e)
    return b is not None and index_kind(F, b) in kinds
