"""Effect summaries (what existing memory a routine, with everything it calls, may write) of every public routine that reads out or saves, and of
the setters for the arrays they receive."""
import re
from ..effects import OwnEffects, root
from ..ir import *
from . import a06, a31, a05

# working fields that carry no data of the user: cursors of the one-by-one getters, numbering and marking scratch, the format version
# of the last file, and the derived neighbourhood tables
SCRATCH = {'MMG5_Mesh.npi', 'MMG5_Mesh.nti', 'MMG5_Mesh.nai', 'MMG5_Mesh.nei', 'MMG5_Mesh.npri', 'MMG5_Mesh.nqi', 'MMG5_Sol.npi', 'MMG5_Mesh.ver', 'MMG5_Sol.ver',
           'MMG5_Mesh.base', 'MMG5_Mesh.mark', 'MMG5_Point.tmp', 'MMG5_Point.flag', 'MMG5_Point.s', 'MMG5_Tria.base', 'MMG5_Tria.flag', 'MMG5_Tetra.flag', 'MMG5_Tetra.mark',
           'MMG5_Edge.base', 'MMG5_Mesh.adja', '*MMG5_Mesh.adja', 'MMG5_Mesh.memCur', '@MMG5_Get_tagName.tags_name'}
# routines that build the neighbourhood or list interior entities behind the used part of an array: they may also compact the element arrays
# and complete the boundary marking
BUILD = {'MMG3D_hashTetra', 'MMGS_hashTria', 'MMG2D_hashTria', 'MMG5_mmgHashTria', 'MMG3D_Get_numberOfNonBdyTriangles', 'MMG2D_Get_numberOfNonBdyEdges', 'MMGS_Get_numberOfNonBdyEdges'}
FILES = {'fopen', 'fclose', 'strdup', 'fseek', 'ftell', 'rewind', 'remove', 'getc', 'fgetc'}
SUBSTR = {'strstr', 'strrchr', 'strchr', 'strpbrk'}

class Reads(OwnEffects):
    def of(self, F, i):
        if i.op in ('call', 'invoke') and F.callee(i) in BUILD and F.name != F.callee(i): return []
        return super().of(F, i)
    def _write1(self, F, p):
        r, crossed = root(p)
        # a position inside a string: what is written is the string
        n = 0
        while r[0] == 'call' and r[1] in SUBSTR and n < 8:
            i = F.by_id.get(r[2]) if len(r) > 2 and isinstance(r[2], int) else None
            if i is None: break
            q = F.expr(i.a[1][0]); n += 1
            if crossed: break
            p = q; r, crossed = root(p)
        # the third coordinate of a plane mesh is none
        if p[0] == 'idx' and p[2] == ('c', 2) and p[1][0] == 'fld' and p[1][2:] == ('struct.MMG5_Point', 'c') and F.name == 'MMG5_saveMshMesh': return []
        if n: return super()._write(F, p)
        return super()._write1(F, p)

def run(c):
    P = c.prog('ndebug')
    E = Reads(P, a06.flags(P), SCRATCH)
    public = a31.public()
    c.floor('getter', 70); c.floor('setter', 100); c.floor('saver', 18)
    for F in sorted(P.fns.values(), key=lambda f: f.key()):
        if F.name not in public or a05.is_fortran_unit(F.unit) or F.name in BUILD: continue
        kind = 'getter' if '_Get_' in F.name else 'saver' if re.search(r'_[sS]ave[A-Z]', F.name) else 'setter' if '_Set_' in F.name else None
        if kind is None: continue
        es = E.summary(F); n = 0
        for e in sorted(es, key=str):
            if e[0] in ('io', 'flag'): continue
            what = None
            if e[0] == 'warg':
                field = re.search(r'MMG5_\w+\.\w+', e[2])
                if kind == 'setter':
                    if e[1] > 0 and not re.search(r'MMG5_Sol\.', e[2]) and not (e[1] == 1 and re.search(r'_Set_solsAtVerticesSize$', F.name)) and not e[2].startswith('**'):
                        what = 'what its %s argument points to' % ordinal(e[1])
                elif kind == 'getter' and e[1] > 0 and not field and not e[3]: pass          # the values asked for
                elif e[1] > 0 and not field and kind == 'getter': pass
                else: what = e[2].replace('MMG5_', '') if field else 'what its %s argument points to' % ordinal(e[1])
            elif kind == 'setter': continue
            elif e[0] == 'ext':
                if e[1] in FILES or e[1].startswith('MMG') and 'Vt' in e[1]: continue
                what = 'data through ' + e[1]
            elif e[0] == 'w': what = e[1].replace('MMG5_', '')
            if what:
                n += 1
                c.violation('%s/%s' % (F.name, what), where(P, E, F, e) or F.loc(), 'the %s changes %s' % (kind, what))
        c.ob(kind, '%s: %d effects, none on the data of the user' % (F.name, len(es)))

def ordinal(n): return {0: 'first', 1: 'second', 2: 'third', 3: 'fourth', 4: 'fifth', 5: 'sixth'}.get(n, '%dth' % (n + 1))

def where(P, E, F, e, seen=None):
    """place of the instruction the effect comes from"""
    seen = set() if seen is None else seen
    if F.key() in seen: return None
    seen.add(F.key())
    for i in F.ins():
        if any(x[0] == e[0] and x[-1 if x[0] != 'warg' else 2] == e[-1 if e[0] != 'warg' else 2] for x in E.of(F, i) if x[0] in ('w', 'warg', 'ext')):
            if i.op == 'call':
                for t in P.targets(F, i):
                    for x in E.summary(t):
                        if x[0] in ('w', 'warg', 'ext') and x[2 if x[0] == 'warg' else -1] == e[2 if e[0] == 'warg' else -1]:
                            r = where(P, E, t, x, seen)
                            if r: return r
            return i.loc()
