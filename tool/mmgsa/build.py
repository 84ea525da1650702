"""Build LLVM-IR facts of the current /repo tree.

Every run configures /repo with cmake in a scratch directory (nothing is written in /repo), compiles the
sources of the three libraries and the three command-line mains with clang -O0 to bitcode and dumps the
promoted (mem2reg) IR as JSON facts.  A cache keyed by the content of /repo/src, of the cmake files and of
this directory only avoids repeating identical work; no check depends on it being there.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('MMG_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
CACHE = os.path.join(VERIF, '.cache')
LLVM = '/usr/lib/llvm-18/bin'

class Broken(Exception):
    """the analysis could not be carried out: exit status 2, never a verdict"""

def _hash_tree():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'cmake'), os.path.join(REPO, 'scripts')]
    files = [os.path.join(REPO, 'CMakeLists.txt')]
    for r in roots:
        for d, dn, fn in os.walk(r):
            dn.sort()
            files += [os.path.join(d, f) for f in sorted(fn)]
    files.append(os.path.join(VERIF, 'tool', 'irfacts.cpp'))
    files.append(os.path.join(HERE, 'known_functions.txt'))
    files.append(os.path.join(HERE, 'build.py'))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p.stdout

class Build:
    def __init__(self):
        self.key = _hash_tree()
        self.dir = os.path.join(CACHE, self.key)
        os.makedirs(self.dir, exist_ok=True)
        # keep only the few most recent trees
        try:
            ds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, d))), key=os.path.getmtime)
            for d in ds[:-4]:
                if d != self.dir: shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass
        os.utime(self.dir)
        self._cfg = {}

    # ---------------------------------------------------------------- tools
    def irfacts(self):
        src = os.path.join(VERIF, 'tool', 'irfacts.cpp')
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        exe = os.path.join(CACHE, 'irfacts-' + h)
        if not os.path.exists(exe):
            flags = sh([LLVM + '/llvm-config', '--cxxflags']).split()
            flags = [f for f in flags if f != '-DNDEBUG' and not f.startswith('-std=') and f != '-fno-exceptions']
            ld = sh([LLVM + '/llvm-config', '--ldflags', '--libs', '--link-shared']).split()
            tmp = exe + '.%d' % os.getpid()
            sh(['g++', '-O1', '-std=c++17', '-w'] + flags + [src, '-o', tmp] + ld)
            os.replace(tmp, exe)
        return exe

    # ------------------------------------------------------------ configure
    def configure(self, int64=False):
        name = 'cfg64' if int64 else 'cfg32'
        if name in self._cfg: return self._cfg[name]
        d = os.path.join(self.dir, name)
        cc = os.path.join(d, 'compile_commands.json')
        if not os.path.exists(os.path.join(d, 'ok')):
            shutil.rmtree(d, ignore_errors=True)
            cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithAssert', '-DBUILD_TESTING=OFF',
                   '-DUSE_SCOTCH=ON', '-DUSE_VTK=ON', '-DUSE_ELAS=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
                   '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++']
            if int64: cmd.append('-DMMG5_INT=int64_t')
            env = dict(os.environ); env.pop('CFLAGS', None); env.pop('CXXFLAGS', None); env['HOME'] = '/root'
            sh(cmd, env=env)
            # the public headers the build copies
            inc = os.path.join(d, 'include', 'mmg', 'common')
            os.makedirs(inc, exist_ok=True)
            for f in ('libmmgtypes.h', 'mmg_export.h', 'mmg_core_export.h'):
                s = os.path.join(REPO, 'src/common', f)
                if os.path.exists(s): shutil.copy(s, inc)
            for f in os.listdir(os.path.join(d, 'src/common')):
                if f.endswith('.h'): shutil.copy(os.path.join(d, 'src/common', f), inc)
            for dd in (inc, os.path.join(d, 'src/common')):
                p = os.path.join(dd, 'git_log_mmg.h')
                if not os.path.exists(p):
                    open(p, 'w').write('#ifndef _GIT_LOG\n#define _GIT_LOG\n#define MMG_GIT_BRANCH ""\n#define MMG_GIT_COMMIT ""\n#define MMG_GIT_DATE ""\n#endif\n')
            open(os.path.join(d, 'ok'), 'w').write('ok')
        units = {}
        for e in json.load(open(cc)):
            f = os.path.relpath(e['file'], REPO)
            if not f.startswith('src/'): continue
            m = re.search(r'CMakeFiles/([^/]+)\.dir', e['output'])
            tgt = m.group(1)
            if tgt.endswith('_so'): continue
            units.setdefault(f, {})[tgt] = e['command']
        self._cfg[name] = (d, units)
        return d, units

    def units(self, int64=False):
        return sorted(self.configure(int64)[1])

    def _compile(self, unit, variant):
        int64 = variant == 'i64'
        d, units = self.configure(int64)
        cmds = units[unit]
        pref = [t for t in ('libmmg3d_a', 'libmmgs_a', 'libmmg2d_a', 'libmmg_a') if t in cmds]
        cmd = cmds[pref[0]] if pref else sorted(cmds.items())[0][1]
        toks = cmd.split()
        cpp = unit.endswith('.cpp')
        args = []
        i = 1
        while i < len(toks):
            t = toks[i]
            if t in ('-o', '-c'): i += 2; continue
            if t in ('-O2', '-g', '-O3', '-O0'): i += 1; continue
            args.append(t); i += 1
        pre = []
        if variant == 'ndebug': pre = ['-DNDEBUG']
        if variant == 'amark': pre = ['-I' + os.path.join(VERIF, 'tool', 'amark')]
        outdir = os.path.join(self.dir, variant); os.makedirs(outdir, exist_ok=True)
        base = os.path.join(outdir, unit.replace('/', '__'))
        bc = base + '.bc'
        if not os.path.exists(bc):
            tmp = base + '.%d.bc' % os.getpid()
            sh([LLVM + ('/clang++' if cpp else '/clang'), '-w'] + pre + args +
               ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-ffp-contract=off', '-emit-llvm', '-c', os.path.join(REPO, unit), '-o', tmp])
            os.replace(tmp, bc)
        self._dump(bc, base + '.json')
        return base + '.json'

    def _dump(self, bc, js):
        if os.path.exists(js): return
        known = os.path.join(HERE, 'known_functions.txt')
        tmp = js + '.%d' % os.getpid()
        sh([self.irfacts(), bc, tmp, known])
        os.replace(tmp, js)

    def facts(self, variant='dbg', cpp=False):
        """compile every unit (in parallel) and return {unit: facts}.  A function that the reference tree
        does not have is inlined in its callers, also across units (through llvm-link --only-needed)."""
        self.configure(variant == 'i64')
        us = [u for u in self.units(variant == 'i64') if cpp or not u.endswith('.cpp')]
        with ThreadPoolExecutor(8) as ex:
            fi = ex.submit(self.irfacts)
            fi.result()
            fs = dict(zip(us, ex.map(lambda u: self._compile(u, variant), us)))
        out = {u: json.load(open(f)) for u, f in fs.items()}
        known = set(open(os.path.join(HERE, 'known_functions.txt')).read().split())
        new = {}
        for u, d in out.items():
            for f in d['functions']:
                if not f['internal'] and f['name'] not in known: new[f['name']] = u
        for u, d in out.items():
            need = sorted({new[n] for n in d['decls'] if n in new and new[n] != u})
            if not need: continue
            base = fs[u][:-5]
            js = base + '.linked.json'
            if not os.path.exists(js):
                tmp = base + '.%d.linked.bc' % os.getpid()
                sh([LLVM + '/llvm-link', '--only-needed', base + '.bc'] + [fs[x][:-5] + '.bc' for x in need] + ['-o', tmp])
                self._dump(tmp, js); os.unlink(tmp)
            d2 = json.load(open(js))
            own = {f['name'] for f in d['functions']}
            d2['functions'] = [f for f in d2['functions'] if f['name'] in own or (f['internal'])]
            out[u] = d2
        return out
