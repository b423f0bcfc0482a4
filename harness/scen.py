"""A scenario: the environment (files, arguments, environment variables, child processes) in which the
program under test is executed symbolically by the engine, or natively under one assignment."""
import time, os, subprocess, json, shutil
import z3
from sx import to_sexpr, subst, val

HASH = '2b603f95a48f10f931a61dd208fe3e5ffd64e491'
RUSTC_VV = '''rustc 1.76.0-nightly (2b603f95a 2023-11-12)
binary: rustc
commit-hash: %s
commit-date: 2023-11-12
host: x86_64-unknown-linux-gnu
release: 1.76.0-nightly
LLVM version: 17.0.5
'''
CFG_THUMB = 'debug_assertions\npanic="unwind"\ntarget_abi="eabi"\ntarget_arch="arm"\ntarget_endian="little"\ntarget_env=""\ntarget_os="none"\ntarget_pointer_width="32"\ntarget_vendor="unknown"\n'
CFG_LINUX = 'debug_assertions\npanic="unwind"\ntarget_abi=""\ntarget_arch="x86_64"\ntarget_endian="little"\ntarget_env="gnu"\ntarget_family="unix"\ntarget_os="linux"\ntarget_pointer_width="64"\ntarget_vendor="unknown"\nunix\n'


def enc(s):
    bs = s if isinstance(s, bytes) else s.encode('utf-8', 'surrogateescape')
    return ''.join(chr(c) if 33 <= c <= 126 and c != 37 else '%%%02x' % c for c in bs)


def items(x):
    """str/bytes/list -> content list"""
    if isinstance(x, str):
        return list(x.encode('utf-8'))
    return list(x)


def cat(*xs):
    out = []
    for x in xs:
        if isinstance(x, int) or z3.is_expr(x):
            out.append(x)
        else:
            out += items(x)
    return out


class Proc:
    def __init__(self, id, argv0, contains=(), stdout='', stderr='', status=0, errno=0):
        self.id, self.argv0, self.contains = id, argv0, list(contains)
        self.stdout, self.stderr, self.status, self.errno = items(stdout), items(stderr), status, errno


class Scenario:
    def __init__(self, root, name):
        self.root, self.name = root, name
        self.vars = {}
        self.assumes = []
        self.files = {}      # path relative to root -> content
        self.mtimes = {}     # basename -> z3 BV64 | int
        self.watch = None    # directory whose changes a native run reports
        self.lengths = {}    # path -> z3 BV64 the file is cut to (2**64-1: it is missing)
        self.faults = {}     # out.limit, out.errno, out.chunk, out.intr, in.chunk, in.intr, out.once, in.err:<path>, open.err:, stat.err:, dir.err:, touch.err: -> z3 BV64
        self.args = [items('cargo-call-stack')]
        self.envs = []       # content lists "K=V"
        self.procs = []
        self.cwd = 'proj'
        self.seed = 1
        self.dirorder = 'sorted'
        self.max_forks = None
        self.deadline = 300
        self.par = 8
        self.sparse = {}     # path -> size the file is extended to with zeros
        self.truth = {}      # whatever the oracle wants to know

    # ---- symbolic inputs
    def var(self, name, w=8):
        v = z3.BitVec(name, w)
        self.vars[name] = v
        return v

    def assume(self, *cs):
        for c in cs: self.assume1(c)

    def assume1(self, c):
        self.assumes.append(c)

    def one_of(self, v, values):
        self.assume(z3.Or([v == k for k in values]))
        return v

    def add(self, path, content):
        self.files[path] = items(content)

    def path(self, p):
        return os.path.join(self.root, p)

    # ---- rendering
    def _dirs(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.path(self.cwd), exist_ok=True)
        os.makedirs(self.path('bin'), exist_ok=True)

    def write_symbolic(self, ir, out, fnlist=None):
        self._dirs()
        L = ['ir ' + enc(ir), 'cwd ' + enc(self.path(self.cwd)), 'out ' + enc(out), 'exe ' + enc(self.path('bin/tool')),
             'par %d' % self.par, 'deadline %d' % self.deadline, 'seed %d' % self.seed, 'dirorder ' + self.dirorder]
        if self.max_forks:
            L.append('max_forks %d' % self.max_forks)
        if fnlist:
            L.append('fnlist ' + enc(fnlist))
        for n, v in self.vars.items():
            L.append('var %s %d' % (n, v.size()))
        for a in self.assumes:
            L.append('assume ' + to_sexpr(a))
        def put(path, content, size=None):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(bytes(x if isinstance(x, int) else 0 for x in content))
                if size: f.truncate(size)
            rp = os.path.realpath(path)
            for i, x in enumerate(content):
                if not isinstance(x, int):
                    L.append('file %s %d %s' % (enc(rp), i, to_sexpr(x)))
            return rp
        for p, c in self.files.items():
            put(self.path(p), c, self.sparse.get(p))
        for p, t in self.lengths.items():
            L.append('flen %s %s' % (enc(os.path.realpath(self.path(p))), to_sexpr(t)))
        for p, t in self.faults.items():
            L.append('fault %s %s' % (enc(self.fault_key(p)), to_sexpr(t)))
        for p, t in self.mtimes.items():
            if isinstance(t, int):
                for q in self.files:
                    if os.path.basename(q) == p:
                        os.utime(self.path(q), (t, t))
            else:
                if isinstance(t, tuple):
                    t, ns = t
                    L.append('mtimens %s %s' % (enc(p), to_sexpr(ns)))
                L.append('mtime %s %s' % (enc(p), to_sexpr(t)))
        for k, a in enumerate(self.args):
            L.append('arg ' + enc(bytes(x if isinstance(x, int) else 120 for x in a)))
            for i, x in enumerate(a):
                if not isinstance(x, int):
                    L.append('argsym %d %d %s' % (k, i, to_sexpr(x)))
        for k, a in enumerate(self.envs):
            L.append('env ' + enc(bytes(x if isinstance(x, int) else 120 for x in a)))
            for i, x in enumerate(a):
                if not isinstance(x, int):
                    L.append('envsym %d %d %s' % (k, i, to_sexpr(x)))
        for k, p in enumerate(self.procs):
            L.append('proc ' + enc(p.id))
            L.append('proc.argv0 ' + enc(p.argv0))
            for c in p.contains:
                L.append('proc.contains ' + enc(c))
            if p.stdout: L.append('proc.stdout ' + enc(put(self.path('model/%d.out' % k), p.stdout)))
            if p.stderr: L.append('proc.stderr ' + enc(put(self.path('model/%d.err' % k), p.stderr)))
            if p.errno: L.append('proc.errno %d' % p.errno)
            if not (isinstance(p.status, int) and p.status == 0):
                L.append('proc.status ' + to_sexpr(z3.BitVecVal(p.status, 32) if isinstance(p.status, int) else p.status))
        sp = self.path('scenario.txt')
        with open(sp, 'w') as f:
            f.write('\n'.join(L) + '\n')
        return sp

    def write_concrete(self, model, tool):
        """render the scenario under one assignment; returns (argv, env, cwd)"""
        self._dirs()
        for p, c in self.files.items():
            q = self.path(p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as f:
                f.write(subst(c, model))
                if p in self.sparse: f.truncate(self.sparse[p])
        for p, t in self.lengths.items():
            n = val(t, model)
            if n == 2**64 - 1: os.remove(self.path(p))
            else: os.truncate(self.path(p), n)
        for p, t in self.mtimes.items():
            t, ns = t if isinstance(t, tuple) else (t, 0)
            tv = val(t, model)
            if tv >= 2**63: tv -= 2**64
            tv = tv * 10**9 + val(ns, model)
            for q in self.files:
                if os.path.basename(q) == p:
                    os.utime(self.path(q), ns=(tv, tv))
        names = {}
        for k, p in enumerate(self.procs):
            os.makedirs(self.path('model'), exist_ok=True)
            open(self.path('model/%d.out' % k), 'wb').write(subst(p.stdout, model))
            open(self.path('model/%d.err' % k), 'wb').write(subst(p.stderr, model))
            names.setdefault(p.argv0, []).append(k)
        os.makedirs(self.path('log'), exist_ok=True)
        for a0, ks in names.items():
            fn = a0.rsplit('/', 1)[-1]
            S = ['#!/bin/sh', 'L=%s/log/$$' % self.root, "printf '%s\\0' \"$0\" \"$@\" > $L.argv", '/usr/bin/env -0 > $L.env', 'has() { w="$1"; shift; for a in "$@"; do [ "$a" = "$w" ] && return 0; done; return 1; }']
            for k in ks:
                p = self.procs[k]
                cond = ' && '.join("has '%s' \"$@\"" % c for c in p.contains) or 'true'
                st = val(p.status, model)
                fin = 'exit %d' % ((st >> 8) & 255) if st & 127 == 0 else 'kill -%d $$; sleep 5' % (st & 127)
                S.append('if %s; then echo %s > $L.id; /bin/cat %s; /bin/cat %s >&2; %s; fi' % (cond, p.id, self.path('model/%d.out' % k), self.path('model/%d.err' % k), fin))
            S.append('exit 97')
            if any(self.procs[k].errno for k in ks):
                continue
            dest = a0 if '/' in a0 else self.path('bin/' + fn)
            os.makedirs(os.path.dirname(dest), exist_ok=True)
            open(dest, 'w').write('\n'.join(S) + '\n')
            os.chmod(dest, 0o755)
        shutil.copy(tool, self.path('bin/tool'))
        env = {}
        for e in self.envs:
            k, _, v = subst(e, model).split(b'\0')[0].partition(b'=')
            env[k] = v
        base = set(env)
        env[b'PATH'] = self.path('bin').encode() + b':/usr/bin:/bin'
        argv = [subst(a, model).split(b'\0')[0] for a in self.args]
        return argv, env, self.path(self.cwd), base

    def fault_key(self, k):
        a, x, b = k.partition(':')
        return a + x + os.path.realpath(self.path(b)) if x else k

    def shim(self, seed=None, model=None):
        import build
        e = {b'LD_PRELOAD': build.shim().encode(), b'SYMX_SEED': str(seed or self.seed).encode()}
        if self.dirorder == 'reverse': e[b'SYMX_REVERSE'] = b'1'
        if self.faults: e[b'SYMX_FAULTS'] = '\n'.join('%s=%d' % (self.fault_key(k), val(t, model)) for k, t in self.faults.items()).encode()
        return e

    def _watched(self):
        """modification time and content of the files of the project"""
        out = {}
        for d, ds, fs in os.walk(self.path(self.watch)):
            for f in fs:
                q = os.path.join(d, f)
                out[q] = (os.lstat(q).st_mtime_ns, open(q, 'rb').read())
        return out

    def run_native(self, model, tool, timeout=20, seed=None):
        argv, env, cwd, base = self.write_concrete(model, tool)
        if self.watch:
            old = time.time() - 86400
            for q in self._watched(): os.utime(q, (old, old), follow_symlinks=False)
            before = self._watched()
        start = time.time_ns()
        try:
            r = subprocess.run(argv, executable=self.path('bin/tool'), env={**env, **self.shim(seed, model)}, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return dict(kind='timeout', code=None, out=b'', err=b'', ev=[])
        ev = []
        if self.watch:
            after = self._watched()
            for q in sorted(set(before) | set(after)):
                a, b = before.get(q), after.get(q)
                if a is None or b is None or a[1] != b[1]: ev.append(dict(kind='open-write', path=q, ok=True, time=None))
                elif a[0] != b[0]: ev.append(dict(kind='touch', path=q, ok=True, time=1700000000123456789 if b[0] >= start - 2 * 10**7 else b[0]))
        logd = self.path('log')
        for f in sorted((x for x in os.listdir(logd) if x.endswith('.argv')), key=lambda x: int(x[:-5])):
            av = open(os.path.join(logd, f), 'rb').read().split(b'\0')[:-1]
            ee = dict(x.partition(b'=')[::2] for x in open(os.path.join(logd, f[:-5] + '.env'), 'rb').read().split(b'\0') if x)
            extra = {k: v for k, v in ee.items() if env.get(k) != v and k not in (b'PWD', b'_', b'SHLVL', b'OLDPWD')}
            missing = [k for k in env if k not in ee]
            idf = os.path.join(logd, f[:-5] + '.id')
            ev.append(dict(kind='spawn', argv=av, extra=extra, missing=missing, id=open(idf).read().strip() if os.path.exists(idf) else ''))
        code = r.returncode
        kind = 'exit' if code >= 0 else 'abort'
        if code == 101 and b'panicked' in r.stderr: kind = 'abort'
        return dict(kind=kind, code=code, out=r.stdout, err=r.stderr, ev=ev)

    def save_replay(self, model, dest, tool, note, seed=None):
        """leave a directory with a runnable reproduction"""
        argv, env, cwd, base = self.write_concrete(model, tool)
        import shlex
        q = lambda b: shlex.quote(b.decode('utf-8', 'surrogateescape'))
        with open(self.path('replay.sh'), 'w', errors='surrogateescape') as f:
            f.write('#!/bin/bash\n# %s\ncd %s\nexec -a %s /usr/bin/env -i %s %s %s\n' % (
                note.replace('\n', ' '), shlex.quote(cwd), q(argv[0]), ' '.join(q(k + b'=' + v) for k, v in {**env, **self.shim(seed, model)}.items()), shlex.quote(self.path('bin/tool')), ' '.join(q(a) for a in argv[1:])))
        os.chmod(self.path('replay.sh'), 0o755)
        with open(self.path('model.json'), 'w') as f:
            json.dump(dict(model=model, note=note), f, indent=1)
