"""(1) Every path of every main routine is followed with the status each call can give. After a phase (a routine whose status is 0 or 1 and whose
status the caller looks at) failed, the main routine does not return success. (2) The same for every phase: a sub-phase that failed makes it fail, unless
the routine answers a question (PREDICATES). (3) Where a routine of the library can return a negative status, every caller is followed from the call
with that status: it returns a negative status (or 0 where that is its only failure) and does not go on to the same call again, unless the
negative status is an answer (ANSWERS) or the caller is made to survive it (SURVIVES)."""
from ..absint import *
from ..build import Broken
from ..mainpaths import Walk
from .a05 import is_fortran_unit
from .a19 import MAINS

# 0 is an answer, not a failure
PREDICATES = {'MMG5_invmat': 'the metric is kept', 'MMG5_eigenv3d': 'the metric is kept', 'MMGS_surfballRotation': 'the point is skipped', 'MMG5_isSplit': 'is this reference to be split',
              'MMG5_boulec': 'no tangent there', 'MMG5_boulen': 'no normal there', 'MMG5_hashPop': 'was the edge in the table', 'MMG5_buildridmet': 'the edge is skipped',
              'chknor': 'a warning', 'MMG2D_hashQuad': 'a warning, when the edges are packed', 'MMG5_nmgeom': 'a warning'}
# the negative status of these is an answer
ANSWERS = {'MMG5_hashFace': 'the face is new in the table', 'MMG3D_settag_oneDir': 'the shell is closed', 'MMG3D_deltag_oneDir': 'the shell is closed', 'MMG3D_update_shellEdgeTag_oneDir': 'the shell is closed',
           'MMG5_coquilTravel': 'the end of the shell', 'MMG3D_coquilFaceFirstLoop': 'the end of the shell', 'MMG5_chkedg': 'the edge cannot be judged: not split', 'MMG3D_simbulgept': 'an unacceptable position',
           'MMG5_coquil': 'a shell that cannot be walked is left alone', 'MMG2D_cutEdgeTriangle': 'the edges meet in a vertex', 'MMG5_boulesurfvolp': 'a ball that cannot be walked is left alone',
           'MMG5_boulesurfvolpNom': 'a ball that cannot be walked is left alone', 'MMG5_bouletrid': 'a ball that cannot be walked is left alone', 'MMG5_coquilface': 'a shell that cannot be walked is left alone',
           'MMG5_chkcol_bdy': 'a collapse that cannot be judged is not made', 'MMG3D_normalAdjaTri': 'no normal: the point is not moved', 'MMG5_grad2metVol': 'nothing to do for the edge', 'MMG5_grad2metSurf': 'nothing to do for the edge',
           'MMG2D_cavity': 'the point is not inserted', 'MMG2D_delone': 'the point is not inserted', 'MMG3D_typelt': 'no special shape'}
# (caller, callee): these go on after a failure on purpose
SURVIVES = {('MMG2D_adpspl', 'MMG2D_chkspl'): 'no memory for more vertices: the remeshing ends with what there is', ('MMG2D_spllag', 'MMG2D_chkspl'): 'the same', ('adpspl', 'chkspl'): 'the same',
            ('MMG2D_countLocalParamAtEdg', 'MMG5_Add_inode'): 'an incomplete parameter file is announced', ('MMG5_countLocalParamAtTet', 'MMG5_Add_inode'): 'the same', ('MMG5_countLocalParamAtTri', 'MMG5_Add_inode'): 'the same',
            ('MMG2D_loadGenericMesh', 'MMG2D_loadSol'): 'status 0', ('MMG3D_loadGenericMesh', 'MMG3D_loadSol'): 'status 0', ('MMGS_loadGenericMesh', 'MMGS_loadSol'): 'status 0',
            ('MMG3D_adpcoledg', 'MMG5_colver'): 'no memory: the edge stays', ('MMG3D_coledges', 'MMG5_colver'): 'the same', ('MMG3D_deletePoint', 'MMG3D_coledges'): 'the same', ('MMG3D_optbdry', 'MMG3D_coledges'): 'the same',
            ('MMG3D_optbdry', 'MMG3D_swpItem'): 'the tetrahedron stays as it is', ('MMG3D_opttyp', 'MMG3D_optbdry'): 'the same', ('MMG3D_opttyp', 'MMG3D_swpItem'): 'the same', ('MMG3D_opttyp', 'MMG3D_splitItem'): 'the same',
            ('MMG3D_opttyp', 'MMG3D_swpalmostall'): 'the same', ('MMG3D_opttyp', 'MMG3D_splitalmostall'): 'the same',
            ('MMG3D_mmg3d1_delone_split', 'MMG3D_PROctreein_iso'): 'no memory for the filter: it is given up', ('MMG3D_mmg3d1_delone_split', 'MMG3D_PROctreein_ani'): 'the same',
            ('MMG3D_mmg3d1_delone_split', 'MMG5_cavity_iso'): 'the point is not inserted', ('MMG3D_mmg3d1_delone_split', 'MMG5_cavity_ani'): 'the same'}

class Fail:
    events = ()
    def __init__(self, c): self.c = c
    def store(self, W, F, i, s, V): return s
    def call(self, W, F, i, ts, s, V): return None
    def result(self, F, i, t, rs, q, s):
        if q == 0 and rs >= {0, 1} and s is None and used(F, i) and t.name not in PREDICATES: return (t.name, i.loc())
        return s

def used(F, i): return any(i.id in [o for o in operands(u) if isinstance(o, int)] for u in F.ins())

def leaves(G):
    """constants the routine can return; '?' for anything else"""
    out = set()
    for i in G.ins():
        if i.op != 'ret' or not i.a: continue
        v = i.a[0][0] if isinstance(i.a[0], list) else i.a[0]
        st = [v]; seen = set()
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if 'i' in x: out.add(x['i'])
                continue
            if x is None or x in seen: continue
            seen.add(x); d = G.by_id.get(x)
            if d is None: out.add('?')
            elif d.op == 'phi': st += [y for y, _ in d.a[0]]
            elif d.op == 'select': st += d.a[0][1:]
            elif d.op in ('sext', 'zext', 'trunc'): st.append(d.a[0][0])
            else: out.add('?')
    return out

def after(W, G, site, q, bad):
    """the first bad outcome on the paths after site gave q: a returned value or 'again'; None if there is none"""
    can = W.uses(G)
    def step(b, env):
        t = G.blocks[b][-1]
        if t.op == 'ret':
            v = t.a[0] if t.a else None
            if isinstance(v, list): v = v[0] if v else None
            r = W.val(G, env, {}, v) if v is not None else None
            return (r[1] if r[0] == 'c' else '?') if r else '?'
        ss = G.succs[b]
        if t.op == 'br' and t.a[0] is not None:
            v = W.val(G, env, {}, t.a[0])
            if v and v[0] == 'c': ss = [t.a[1] if v[1] else t.a[2]]
        elif t.op == 'switch':
            v = W.val(G, env, {}, t.a[0])
            if v and v[0] == 'c': ss = [dict((k, x) for k, x in t.a[2]).get(v[1], t.a[1])]
        res = []
        for n in dict.fromkeys(ss):
            e2 = dict(env)
            for i in G.blocks[n]:
                if i.op != 'phi': break
                e2.pop(i.id, None)
                for x, p in i.a[0]:
                    if p == b:
                        v = W.val(G, env, {}, x)
                        if v and v[0] == 'c': e2[i.id] = v
            e2 = {k: v for k, v in e2.items() if n in can.get(k, ()) and v[0] == 'c'}
            res.append((n, tuple(sorted(e2.items()))))
        return res
    seen = set(); w = [(site.bb, ((site.id, ('c', q)),))]; n = 0
    while w:
        n += 1
        if n > 60000: return 'unbounded'
        b, e = w.pop()
        if n > 1 and b == site.bb:
            if bad('again'): return 'again'
            continue
        r = step(b, dict(e))
        if isinstance(r, list):
            for s in r:
                if s not in seen: seen.add(s); w.append(s)
        elif bad(r): return r
    return None

def run(c):
    c.rule('(1) after a failed phase no main routine returns success'); c.rule('(2) after a failed sub-phase no phase succeeds'); c.rule('(3) a negative status is handed on')
    P = c.prog('ndebug')
    phases = {}; W = None
    for m in MAINS:
        F = P.need(m)
        W = Walk(P, Fail(c)); W.enter = {G.key() for G in P.fns.values() if G.unit == F.unit and G.internal}
        out = W.run(F, {0: ('tok', 'arg', 0), 1: ('tok', 'arg', 1), 2: ('tok', 'arg', 2)}, None)
        c.count('path states followed', W.steps)
        for s, r in sorted(out, key=str):
            c.ob('outcomes of main routines', '%s: %s after %s' % (m, r[1] if r else '?', s[0] if s else 'no failure'))
            if r is None or r[0] != 'c': c.violation('%s:status' % m, F.loc(), '%s can return a status that is not a constant' % m); continue
            if s and r[1] == 0: c.violation('%s:%s' % (m, s[0]), s[1], '%s reports success after the failure of %s' % (m, s[0]))
        for k in P.cg.get(F.key(), ()): phases[k] = P.fns[k]
    # (2)
    for k, G in sorted(phases.items(), key=lambda x: x[1].name):
        S = W.I.get(G); r = S.ret() if S and G.ret.startswith('i') else None
        if not r or not r >= {0, 1} or any(x < 0 for x in r) or G.name in LOOPS or G.name in MAINS: continue
        W2 = Walk(P, Fail(c)); W2.enter = {H.key() for H in P.fns.values() if H.unit == G.unit and H.internal}
        try: out = W2.run(G, {}, None)
        except Broken:
            W2 = Walk(P, Fail(c)); W2.enter = set()
            out = W2.run(G, {}, None)
        c.count('path states followed', W2.steps)
        for s, q in sorted(out, key=str):
            c.ob('outcomes of phases', '%s: %s after %s' % (G.name, q, s[0] if s else 'no failure'))
            if s and (q is None or q[0] != 'c' or q[1] != 0): c.violation('%s:%s' % (G.name, s[0]), s[1], '%s succeeds after the failure of %s' % (G.name, s[0]))
    # (3)
    L = {k: leaves(G) for k, G in P.fns.items() if G.ret.startswith('i')}
    for k, G in sorted(P.fns.items(), key=lambda x: x[1].name):
        if is_fortran_unit(G.unit) or G.ret == 'void': continue
        gl = L.get(k, set())
        prog = G.name == 'main'
        for i in G.ins():
            if i.op not in ('call', 'invoke'): continue
            for t in P.targets(G, i):
                neg = sorted(x for x in L.get(t.key(), ()) if isinstance(x, int) and -10 < x < 0)
                if not neg or t.name in ANSWERS: continue
                if (G.name, t.name) in SURVIVES: c.count('failures survived on purpose'); continue
                c.ob('calls that can give a negative status', '%s -> %s' % (G.name, t.name))
                if not used(G, i): c.violation('%s:%s:ignored' % (G.name, t.name), i.loc(), '%s ignores the status of %s' % (G.name, t.name)); continue
                signed = any(isinstance(x, int) and x < 0 for x in gl) or 0 not in gl
                if prog or G.name in MAINS: bad = lambda x: x in (0, '?')
                elif signed: bad = lambda x: not isinstance(x, int) or x >= 0
                else: bad = lambda x: x != 0 and not (isinstance(x, int) and x < 0)
                for q in neg:
                    r = after(W, G, i, q, bad)
                    if r is not None:
                        what = {'again': 'goes on to the same call', '?': 'returns a value that does not say so', 'unbounded': 'cannot be followed'}.get(r, 'returns %s' % r)
                        c.violation('%s:%s:%d' % (G.name, t.name, q), i.loc(), '%s: when %s fails with %d, the routine %s' % (G.name, t.name, q, what))
    c.floor('outcomes of main routines', 60); c.floor('outcomes of phases', 120); c.floor('calls that can give a negative status', 120)

# remeshing loops: followed for negative statuses only (their operators answer 0 for "not here")
LOOPS = {'MMG5_mmg3d1_delone', 'MMG5_mmg3d1_pattern', 'MMG5_mmgs1', 'MMG2D_mmg2d1n'}
