"""Every option word of the three programs is pushed symbolically through one turn of the loop over the command line (the
option word is a known constant, the other words and all results of calls unknown, every path enumerated), once with a word
left after it and once as the last word. The calls that set parameters on each path, with their arguments traced back to the
words of the command line, and the number of words consumed are compared with one table shared by the three libraries; a word
past the end is never used as a string; a refused setting and a missing value lead to a failure return."""
from ..pathev import *

def parsers(P, lib):
    return [F for k, F in sorted(P.fns.items()) if F.name in ('%s_storeknownar' % lib, '%s_parsar' % lib)]

def loop_body(F, h):
    body = {h}; st = [p for p in F.preds[h] if F.dominates(h, p)]
    while st:
        b = st.pop()
        if b in body: continue
        body.add(b); st += F.preds[b]
    return body

def option_loops(P, F):
    """(header, index phi, option words compared in it) of the loops over the command line"""
    out = []
    F.version_locals()
    for h in range(len(F.blocks)):
        if not any(F.dominates(h, p) for p in F.preds[h]): continue
        body = loop_body(F, h)
        words = []
        for b in sorted(body):
            for i in F.blocks[b]:
                if i.op == 'call' and F.callee(i) in ('strcmp', 'strncmp'):
                    for v in i.a[1][:2]:
                        s = P.string(F, v)
                        if s and s.startswith('-') and len(s) > 1 and s not in words: words.append(s)
        if not words: continue
        # the index: a phi of the header, or a local variable kept in memory, that starts at 1
        ph = [mk('phi', i.id) for i in F.blocks[h] if i.op == 'phi' and i.ty != 'double' and any(F.expr(v) == ('c', 1) for v, p in i.a[0])]
        if not ph:
            for p in F.preds[h]:
                if p in body: continue
                q, seen = p, 0
                while not ph and seen < 4:
                    for i in reversed(F.blocks[q]):
                        if i.op == 'store' and F.expr(i.a[0][1])[0] == 'loc' and F.expr(i.a[0][0]) == ('c', 1): ph.append(F.expr(i.a[0][1])); break
                    if len(F.preds[q]) != 1: break
                    q = F.preds[q][0]; seen += 1
        if ph: out.append((h, ph[0], words, body))
    return out

SETTER = re.compile(r'^MMG(3D|S|2D)_Set_(iparameter|dparameter|\w+Name|solSize)$')
CONV = {'atoi': 'int', 'atof': 'real', 'strtof': 'real', 'strtod': 'real', 'strtol': 'int'}
I = mk('word')
FAILC = (0, -1)

def simulate(P, F, loop, word, remaining):
    """paths of one turn of the loop on option `word` when `remaining` words are left (1: it is the last word).
    -> list of (kind, effects, next index offset)"""
    h, iphi, words, body = loop
    argv, argc = mk('arg', 1), mk('arg', 0)
    n = binop('add', [I, mk('c', remaining)])
    def at(e):
        """k if e is argv[word+k]"""
        if e[0] != 'ld': return None
        p = e[1]
        if p == argv: return None
        if p[0] == 'idx' and p[1] == argv:
            d = poly(mk('sub', p[2], I))
            if set(d) <= {()}: return d.get((), 0)
        return None
    def char(e):
        """character of the option word"""
        if e[0] != 'ld': return None
        p = e[1]; off = 0
        if p[0] == 'idx' and p[2][0] == 'c': off = p[2][1]; p = p[1]
        if at(p) == 0 and off <= len(word): return ord((word + '\0')[off])
        return None
    calls = {}
    bad = []
    def value(e):
        """canonical description of a value derived from the command line"""
        if e[0] == 'call' and e[1] in CONV and e[2] in calls:
            k = at(calls[e[2]][0])
            return '%s(word+%s)' % (CONV[e[1]], k)
        k = at(e)
        if k is not None: return 'word+%d' % k
        if e[0] in ('c', 'f'): return '%g' % float(e[1])
        if e[0] in ('sitofp', 'fptosi', 'fpext', 'fptrunc'): return value(e[1])
        return Canon(F)(e)
    def deref(e, ins):
        """a word past the end is used as a string"""
        k = at(e)
        if k is not None and k >= remaining: bad.append((ins, k))
    def decide(e, mem):
        e = subst(e, {argc: n})
        if ('cond', e) in mem: return mem[('cond', e)]
        if e[0] == 'xor':
            r = [x for x in e[1:] if x != ('c', 1)]
            if len(r) == 1:
                v = decide(r[0], mem); return None if v is None else not v
        if e[0] == 'cmp':
            a, b = e[2], e[3]
            if a[0] == 'call' and a[1] in ('strcmp', 'strncmp') and b == ('c', 0) and a[2] in calls:
                x, y, s1, s2, nn = calls[a[2]]
                lit, oth = (s1, y) if s1 is not None else (s2, x)
                if lit is not None and at(oth) == 0:
                    eq = lit == word if nn is None else lit[:nn] == word[:nn]
                    return eq if e[1] == 'eq' else not eq
                return None
            ca, cb = char(a), char(b)
            if ca is not None: a = mk('c', ca)
            if cb is not None: b = mk('c', cb)
            d = poly(mk('sub', a, b))
            if set(d) <= {()} and not any(x[0] in ('ld', 'call') for x in (a, b)):
                k = d.get((), 0)
                return {'slt': k < 0, 'sle': k <= 0, 'sgt': k > 0, 'sge': k >= 0, 'eq': k == 0, 'ne': k != 0, 'ult': k < 0, 'uge': k >= 0, 'ugt': k > 0, 'ule': k <= 0}.get(e[1])
            return None
        c = char(e)
        if c is not None: return c
        if e[0] == 'c': return e[1]
        if e[0] == 'sel':
            v = decide(e[1], mem)
            if v is not None: return decide(e[2] if v else e[3], mem)
        return None
    def on(i, R, mem, eff):
        if i.op == 'load':
            p = R(i.a[0][0])
            q = p[1] if p[0] == 'idx' else p
            deref(q, i)
        elif i.op == 'store':
            p = R(i.a[0][1]); r, cr = root(p)
            if r[0] == 'loc' and not cr: return
            pl = Canon(F).place(p)
            eff.append(('store', pl, value(R(i.a[0][0])), i))
        elif i.op in ('call', 'invoke'):
            c = F.callee(i)
            av = [R(a) for a in i.a[1]]
            if c in ('strcmp', 'strncmp'):
                s = [P.string(F, a) for a in i.a[1][:2]]
                calls[i.id] = (av[0], av[1], s[0], s[1], av[2][1] if c == 'strncmp' and av[2][0] == 'c' else None)
            else: calls[i.id] = av
            if c and not c.startswith('llvm.') and c not in PRINT:
                for a in av: deref(a, i)
            if c and SETTER.match(c):
                eff.append(('set', c, tuple(value(subst(a, {argc: n})) for a in av[2 if 'parameter' in c else 1:]), i))
    ikey = ('M', iphi) if iphi[0] == 'loc' else iphi
    outs = walk(F, h, -1, {ikey: I}, decide, {h}, on)
    # value of the index phi when the loop goes round again
    res_ = []
    def outcome(effs):
        """effects with 'refused' (True/False/None) of each set call along the path"""
        r = {}
        for f in effs:
            if f[0] != 'br': continue
            e, v = f[1], f[2]
            while e[0] == 'xor' and len(e) == 3 and ('c', 1) in e[1:]: e, v = [x for x in e[1:] if x != ('c', 1)][0], not v
            if e[0] == 'cmp' and e[1] in ('eq', 'ne') and e[2][0] == 'call' and e[3] == ('c', 0): r[e[2][2]] = v == (e[1] == 'eq')
        return [f + (r.get(f[3].id),) if f[0] == 'set' else f + (None,) for f in effs if f[0] != 'br']
    for k, a, eff, env, *b in [(o + (None,))[:5] if o[0] == 'ret' else o for o in outs]:
        eff = outcome(eff)
        if k == 'stop':
            nx = None
            if iphi[0] == 'loc': nx = poly(mk('sub', res(F, env[ikey], env), I))
            else:
              for v, q in F.by_id[iphi[1]].a[0]:
                if q == b[0]: nx = poly(mk('sub', res(F, v, env), I))
            res_.append(('next', eff, nx.get((), 0) if nx is not None and set(nx) <= {()} else '?'))
        else: res_.append(('ret', eff, a))
    return res_, bad

I_, D_ = 'i', 'd'
# option -> (form, effect); forms: flag, val (needs a value), opt (may be followed by a real), or special
def ip(n, v='int(word+1)'): return (I_, n, v)
def dp(n, v='real(word+1)'): return (D_, n, v)
FLAGS = {'-d': 'debug', '-nofem': 'nofem', '-nreg': 'nreg', '-noswap': 'noswap', '-noinsert': 'noinsert', '-nomove': 'nomove', '-nosurf': 'nosurf', '-nosizreq': 'nosizreq',
         '-opnbdy': 'opnbdy', '-optim': 'optim', '-optimLES': 'optimLES', '-keep-ref': 'keepRef'}
TABLE = {k: ('flag', [ip(v, '1')]) for k, v in FLAGS.items()}
TABLE['-nr'] = ('flag', [ip('angle', '0')])
TABLE['-A'] = ('flag', [('solSize', ('a3', 'Vertex', '0', 'Tensor'))])
TABLE['-default'] = ('flag', [('store', 'a2.mark', '1')])
TABLE['-ls'] = ('opt', [ip('iso', '1')], dp('ls'))
TABLE['-lssurf'] = ('opt', [ip('isosurf', '1')], dp('ls'))
TABLE['-xreg'] = ('opt', [ip('xreg', '1')], dp('xreg'))
TABLE['-rmc'] = ('opt', [dp('rmc', '0')], dp('rmc'))
TABLE['-ar'] = ('val', dp('angleDetection'))
for k in ('hmin', 'hmax', 'hsiz', 'hausd', 'hgradreq', 'hgrad'): TABLE['-' + k] = ('val', dp(k))
for k, v in {'-isoref': 'isoref', '-lag': 'lag', '-m': 'mem', '-nsd': 'numsubdomain', '-octree': 'octree', '-rn': 'renum', '-3dMedit': '3dMedit'}.items(): TABLE[k] = ('val', ip(v))
TABLE['-v'] = ('verb', ip('verbose'))
TABLE['-f'] = ('val', ('inputParamName', ('word+1',)))
TABLE['-in'] = ('val', ('inputMeshName', ('word+1',)))
TABLE['-out'] = TABLE['-o'] = ('val', ('outputMeshName', ('word+1',)))
TABLE['-met'] = ('val', ('inputSolName', ('a3', 'word+1')))
TABLE['-sol'] = ('val', ('inputSolName', ('a3|a4', 'word+1')))
for k in ('-val', '-?', '-h'): TABLE[k] = ('stop',)
LIST = {'MMG3D': '-ar -A -default -d -f -hmin -hmax -hsiz -hausd -hgradreq -hgrad -in -isoref -lag -ls -lssurf -met -m -nofem -nreg -nr -nsd -noswap -noinsert -nomove -nosurf -nosizreq -out -o -opnbdy -octree -optimLES -optim -rmc -rn -sol -v -xreg -val -? -h',
        'MMGS': '-ar -A -default -d -f -hmin -hmax -hsiz -hausd -hgradreq -hgrad -in -isoref -keep-ref -ls -lssurf -met -m -nreg -nr -nsd -noswap -noinsert -nomove -nosizreq -out -o -optim -rmc -rn -sol -v -xreg -val -? -h',
        'MMG2D': '-3dMedit -ar -A -default -d -f -hmin -hmax -hsiz -hausd -hgradreq -hgrad -in -isoref -lag -ls -lssurf -met -m -nofem -nreg -nr -nsd -noswap -noinsert -nomove -nosurf -nosizreq -out -o -opnbdy -optim -rmc -sol -v -xreg -val -? -h'}

def show(e): return '%s=%s' % (e[1], e[2]) if e[0] in (I_, D_) else '%s%s' % (e[0], e[1:])

def run(c):
    P = c.prog('ndebug')
    c.rule(__doc__)
    inv = {}
    for k, v in P.enums.items():
        for lib in LIST:
            for kind in 'ID':
                if k.startswith('%s_%sPARAM_' % (lib, kind)) and not k.endswith('_size'): inv[(lib, kind.lower(), v)] = k.split('PARAM_')[1]
    ent = {str(P.enums['MMG5_Vertex']): 'Vertex'}; typ = {str(P.enums['MMG5_Tensor']): 'Tensor'}
    def norm(lib, eff):
        """effects of a path in the vocabulary of the table; a sequence"""
        out = []
        for f in eff:
            if f[0] == 'set':
                n, a = f[1].split('_Set_')[1], f[2]
                if n in ('iparameter', 'dparameter'):
                    k = inv.get((lib, n[0], int(a[0])) if re.match(r'-?\d+$', a[0]) else None, '?' + a[0])
                    out.append((n[0], k, a[1]))
                elif n == 'solSize': out.append((n, (a[0], ent.get(a[1], a[1]), a[2], typ.get(a[3], a[3]))))
                else: out.append((n, a))
            else: out.append(('store', f[1], f[2]))
        return out
    def same(got, want):
        if len(got) != len(want): return False
        for w in want:
            alts = [w]
            if any('|' in str(x) for x in w): alts = [(w[0], ('a3', 'word+1')), (w[0], ('a4', 'word+1'))]
            if not any(a in got for a in alts): return False
        return True
    for lib, opts in LIST.items():
        fs = parsers(P, lib)
        loops = [(F, L) for F in fs for L in option_loops(P, F)]
        if not loops: raise Broken('%s: no loop over the command line found' % lib)
        main = max(loops, key=lambda x: len(x[1][2]))
        for o in opts.split():
            form = TABLE[o]
            use = [x for x in loops if x is not main and o in x[1][2]] if form[0] == 'stop' else [main]
            use = use or [main]
            for F, L in use:
                for rem in (2, 1):
                    outs, bad = simulate(P, F, L, o, rem)
                    where = '%s, option %s%s' % (F.name, o, '' if rem == 2 else ' as the last word')
                    key = '%s/%s/%s' % (lib, o, rem)
                    loc0 = F.blocks[L[0]][-1].loc()
                    for b, k in bad: c.violation(key + '/past', b.loc(), '%s: a word past the end of the command line is used' % where)
                    nexts = {}; rets = []
                    for k, eff, nx in outs:
                        e = norm(lib, eff)
                        lines = [f[-2] for f in eff]
                        refused = [f[-1] for f in eff if f[0] == 'set']
                        if k == 'next' and True in refused or k == 'ret' and refused and refused[-1] is not True:
                            c.violation(key + '/ignored', lines[-1].loc(), '%s: %s' % (where, 'goes on although the setting was refused' if k == 'next' else 'ends although the setting was accepted'))
                        if k == 'next': nexts.setdefault((nx, tuple(map(str, e))), (nx, e, lines))
                        else: rets.append((e, nx, lines))
                    if form[0] == 'stop': want = []
                    elif form[0] == 'flag': want = [(1, form[1])]
                    elif form[0] == 'val': want = [(2, [form[1]])] if rem == 2 else []
                    elif form[0] == 'opt': want = [(1, form[1])] + ([(2, form[1] + [form[2]])] if rem == 2 else [])
                    else: want = [(1, []), (2, [form[1]])] if rem == 2 else [(1, [])]
                    found = [False] * len(want)
                    for nx, e, lines in nexts.values():
                        hit = [j for j, (n, w) in enumerate(want) if n == nx and same(e, w)]
                        if hit: found[hit[0]] = True
                        else:
                            c.violation(key + '/effect', lines[-1].loc() if lines else loc0, '%s: continues after %s word(s) having set {%s}; expected %s' % (
                                where, nx, ', '.join(map(show, e)), ' or '.join('{%s} (%s word(s))' % (', '.join(map(show, w)), n) for n, w in want) or 'a failure return'))
                    for j, ok in enumerate(found):
                        if not ok and not (form[0] == 'verb' and want[j][0] == 1):
                            c.violation(key + '/missing', loc0, '%s: no path sets {%s} and goes on after %d word(s)' % (where, ', '.join(map(show, want[j][1])), want[j][0]))
                    allw = max([w for n, w in want], key=len) if want else []
                    for e, r, lines in rets:
                        if r != mk('c', 0): c.violation(key + '/return', lines[-1].loc() if lines else loc0, '%s: the parser ends with another value than failure' % where)
                        x = [f for f in e if not any(same([f], [w]) for w in allw)]
                        if x: c.violation(key + '/effect', lines[-1].loc(), '%s: {%s} set before the failure return' % (where, ', '.join(map(show, x))))
                    for n, w in want:
                        for f in w:
                            if f[0] != 'store' and not any(e and same([e[-1]], [f]) for e, r, l in rets):
                                c.violation(key + '/ignored', loc0, '%s: a refusal of %s does not lead to a failure return' % (where, show(f)))
                    c.ob('option and position', where + ': ' + ('; '.join('{%s}+%d' % (', '.join(map(show, w)), n) for n, w in want) or 'stops with failure'))
    c.floor('option and position', 2 * sum(len(x.split()) for x in LIST.values()))
