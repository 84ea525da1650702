"""Every call of a routine that ends, replaces, forks or takes over the process, closes its standard streams or changes process-wide settings is located; it is a
violation unless it is in one of the command-line programs, or in a routine installed as handler of a signal. The dispositions of signals
installed by library routines are propagated forward through the control-flow graphs (helpers that install or restore them are summarised): at every
return of every library routine each signal that may have been given a handler has been given the default again."""
import re
from ..absint import *
from ..build import Broken
from .a05 import is_fortran_unit
from .a31 import public

ENDS = {'exit', '_exit', '_Exit', 'abort', 'quick_exit', 'raise', 'kill', 'killpg', 'longjmp', '_longjmp', 'siglongjmp', 'execv', 'execve', 'execvp', 'execl', 'execlp',
        'fork', 'vfork', 'system', 'popen', 'pthread_exit', 'pthread_kill', 'err', 'errx', 'verr', 'verrx', 'error', 'thrd_exit', 'tgkill', 'syscall', 'llvm.trap'}
GLOBAL = {'chdir', 'fchdir', 'setlocale', 'alarm', 'setitimer', 'atexit', 'on_exit', 'at_quick_exit', 'setrlimit', 'setpriority', 'nice', 'umask', 'dup2', 'dup3', 'sigaction', 'sigprocmask',
          'pthread_sigmask', 'sigblock', 'sigsetmask', 'bsd_signal', 'sysv_signal', 'ssignal', 'sigset', 'fesetround', 'feenableexcept', 'fesetenv', 'feclearexcept', 'putenv', 'setenv', 'unsetenv', 'clearenv', 'prctl',
          'freopen', 'setvbuf', 'setbuf', 'setlinebuf', 'setbuffer', 'mallopt', 'close', 'daemon', 'sleep', 'usleep', 'nanosleep', 'pause', 'sigsuspend', 'unlink', 'remove', 'rename', 'truncate', 'rmdir'}
SIG = {'signal', '__sysv_signal'}

def cst(v): return v.get('i') if isinstance(v, dict) else None
def handler(v): return v.get('fn') or v.get('g') if isinstance(v, dict) else None

def run(c):
    c.rule(__doc__)
    for variant in ('dbg', 'ndebug'):
        P = c.prog(variant)
        mains = {F.unit for F in P.fns.values() if F.name == 'main'}
        if len(mains) < 3: raise Broken('only %d programs' % len(mains))
        handlers = set(); n = 0
        for F in P.fns.values():
            for i in F.ins():
                if i.op in ('call', 'invoke') and F.callee(i) in SIG:
                    h = handler(i.a[1][1])
                    if h: handlers.add(h)
        # fatal: handlers and what only they call
        for k, F in sorted(P.fns.items()):
            if F.unit in mains or F.name in handlers: continue
            for i in F.ins():
                if i.op not in ('call', 'invoke'): continue
                f = F.callee(i)
                if f in handlers:
                    c.violation('%s:%s' % (F.name, f), i.loc(), '%s calls %s, which ends the process' % (F.name, f)); continue
                if f is None: continue
                n += 1
                if f in P.fns or f in SIG: continue
                if f in ENDS:
                    if f == 'exit' and is_fortran_unit(F.unit) and status_less(F):
                        c.count('Fortran routines without a status that stop the program on failure (%s)' % variant); continue
                    c.violation('%s:%s' % (F.name, f), i.loc(), 'library routine %s calls %s, which ends or takes over the process' % (F.name, f))
                elif f in GLOBAL:
                    c.violation('%s:%s' % (F.name, f), i.loc(), 'library routine %s calls %s, which changes the state of the calling process' % (F.name, f))
                elif f == 'fclose':
                    e = F.expr(i.a[1][0])
                    if e[0] == 'ld' and e[1][0] in ('g', 'glob') and any(str(x) in ('stdout', 'stderr', 'stdin') for x in e[1]):
                        c.violation('%s:%s' % (F.name, f), i.loc(), 'library routine %s closes a standard stream' % F.name)
        c.count('calls of library routines (%s)' % variant, n); c.floor('calls of library routines (%s)' % variant, 5000)
        signals(c, P, mains, variant)

def status_less(F):
    """a Fortran entry that has no status argument to report a failure with (variadic argument list)"""
    return re.search(r'INIT|FREE', F.name.upper()) is not None

def signals(c, P, mains, variant):
    """transfer of a routine: for each signal, the set of dispositions at return as a set of 'same' | 'dfl' | 'ign'/'user' """
    memo = {}; own = {}; api = public()
    def transfer(F):
        k = F.key()
        if k in memo: return memo[k]
        memo[k] = {}
        st = {0: {}}; work = [0]; out = {}; where = {}
        has = any(i.op in ('call', 'invoke') and (F.callee(i) in SIG or any(transfer(t) for t in P.targets(F, i))) for i in F.ins())
        if not has: return memo[k]
        rets = []
        while work:
            b = work.pop(); s = {k: frozenset(v) for k, v in st[b].items()}
            for i in F.blocks[b]:
                if i.op not in ('call', 'invoke'): continue
                f = F.callee(i)
                if f in SIG:
                    n = cst(i.a[1][0])
                    if n is None:
                        n = '*'
                    h = i.a[1][1]
                    s[n] = frozenset(['dfl' if isinstance(h, dict) and ('n' in h or h.get('i') == 0) else (i.line, handler(h) or 'a handler')])
                else:
                    for t in P.targets(F, i):
                        for n, d in transfer(t).items():
                            s[n] = frozenset(x for y in d for x in ((s.get(n, frozenset(['same']))) if y == 'same' else [y]))
            t = F.blocks[b][-1]
            if t.op == 'ret': rets.append((t, s))
            for x in F.succs[b]:
                o = st.get(x); 
                if o is None: st[x] = s; work.append(x)
                else:
                    m = {n: o.get(n, frozenset(['same'])) | s.get(n, frozenset(['same'])) for n in set(o) | set(s)}
                    if m != o: st[x] = m; work.append(x)
        for t, s in rets:
            for n in set(out) | set(s): out[n] = out.get(n, frozenset(['same']) if t is not rets[0][0] else frozenset()) | s.get(n, frozenset(['same']))
        own[k] = out
        if F.name in api: out = {n: frozenset('dfl' if isinstance(x, tuple) else x for x in d) for n, d in out.items()}     # reported once
        memo[k] = out
        return out
    called = {}
    for F in P.fns.values():
        for i in F.ins():
            if i.op in ('call', 'invoke'):
                for t in P.targets(F, i): called.setdefault(t.key(), []).append(F)
    n = 0
    for k, F in sorted(P.fns.items()):
        if F.unit in mains: continue
        transfer(F); o = own.get(k)
        if not o: continue
        n += 1
        c.ob('routines that change signal dispositions (%s)' % variant, F.name)
        if called.get(k) and F.name not in api: continue       # a helper: judged in its callers
        for sig, d in sorted(o.items(), key=str):
            bad = [x for x in d if isinstance(x, tuple)]
            if bad: c.violation('%s:signal %s' % (F.name, sig), '%s:%s' % (F.loc().split(':')[0], bad[0][0]), '%s can return with %s still installed as handler of signal %s' % (F.name, bad[0][1], sig))
    c.floor('routines that change signal dispositions (%s)' % variant, 10)
