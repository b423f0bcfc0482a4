"""Builds what the checks need from the current trees: the engine, the LLVM IR of the program under test,
and the program itself (for replays). Everything is cached under /verif/build, keyed by content."""
import hashlib, os, subprocess, shutil, sys, glob, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


def env(**k):
    e = dict(os.environ)
    for x in list(e):
        if x.startswith(('CARGO_PROFILE', 'CARGO_BUILD', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_CALL_STACK')): del e[x]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
    e.update(k)
    return e


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def tree(root, skip=()):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ('target', '.git', 'tests', 'firmware') and os.path.join(d, x) not in skip]
        out += [os.path.join(d, f) for f in fs if f.endswith(('.rs', '.toml', '.lock'))]
    return out


def run(cmd, cwd, e, log):
    with open(log, 'ab') as f:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(open(log, errors='replace').read()[-4000:])
        raise SystemExit('build failed: %s' % ' '.join(cmd))


def engine():
    src = os.path.join(VERIF, 'engine')
    k = digest(tree(src))
    dst = os.path.join(BUILD, 'symx-' + k)
    if not os.path.exists(dst):
        t = os.path.join(BUILD, 'engine-target')
        run(['cargo', 'build', '--release', '--offline', '--target-dir', t], src, env(), os.path.join(BUILD, 'engine.log'))
        shutil.copy(os.path.join(t, 'release/symx'), dst + '.tmp')
        os.rename(dst + '.tmp', dst)
    return dst


def shim():
    src = os.path.join(VERIF, 'harness/shim.c')
    dst = os.path.join(BUILD, 'shim-%s.so' % digest([src]))
    if not os.path.exists(dst):
        run(['gcc', '-O1', '-shared', '-fPIC', '-o', dst + '.tmp', src, '-ldl'], VERIF, env(), os.path.join(BUILD, 'shim.log'))
        os.rename(dst + '.tmp', dst)
    return dst


def program():
    """(path of the .ll, path of the native binary, key)"""
    files = tree(REPO) + [p for p in glob.glob(REPO + '/*') if os.path.isfile(p) and p.endswith(('.toml', '.lock', 'build.rs'))]
    files += glob.glob(REPO + '/.cargo/*')
    k = digest(set(files))
    d = os.path.join(BUILD, 'prog-' + k)
    ll, nat = d + '/prog.ll', d + '/cargo-call-stack'
    if os.path.exists(ll) and os.path.exists(nat): return ll, nat, k
    tmp = d + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    # a private copy of the sources, so that nothing is written in /repo
    src = os.path.join(BUILD, 'src')
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns('target', '.git'), symlinks=True)
    log = os.path.join(BUILD, 'prog.log')
    open(log, 'w').close()
    t1, t2 = os.path.join(BUILD, 'ir-target'), os.path.join(BUILD, 'native-target')
    # never reuse a previous build of the program itself (only of its dependencies): Cargo compares times, and copies keep theirs
    for t in (t1, t2):
        for f in glob.glob(t + '/release/deps/cargo_call_stack-*') + glob.glob(t + '/release/cargo-call-stack*'): os.remove(f)
        for f in glob.glob(t + '/release/.fingerprint/cargo-call-stack-*'): shutil.rmtree(f)
    for dp, _, fs in os.walk(src):
        for f in fs:
            if not os.path.islink(os.path.join(dp, f)): os.utime(os.path.join(dp, f))
    e1 = env(CARGO_PROFILE_RELEASE_LTO='fat', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_PANIC='abort', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='1', CARGO_PROFILE_RELEASE_DEBUG='false')
    a = subprocess.Popen(['cargo', 'rustc', '--offline', '--release', '--bin', 'cargo-call-stack', '--target-dir', t1, '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'],
                         cwd=src, env=e1, stdout=open(log, 'ab'), stderr=subprocess.STDOUT)
    e2 = env(CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='false')
    b = subprocess.Popen(['cargo', 'build', '--offline', '--release', '--bin', 'cargo-call-stack', '--target-dir', t2], cwd=src, env=e2, stdout=open(log, 'ab'), stderr=subprocess.STDOUT)
    if a.wait() or b.wait():
        sys.stderr.write(open(log, errors='replace').read()[-4000:])
        raise SystemExit('cannot build the program under test')
    l = glob.glob(t1 + '/release/deps/cargo_call_stack-*.ll')
    if len(l) != 1: raise SystemExit('expected one .ll, found %s' % l)
    shutil.move(l[0], tmp + '/prog.ll')
    shutil.copy(t2 + '/release/cargo-call-stack', tmp + '/cargo-call-stack')
    shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, d)
    shutil.rmtree(src, ignore_errors=True)
    # keep the cache small
    old = sorted((p for p in glob.glob(BUILD + '/prog-*') if p != d and not p.endswith('.tmp')), key=os.path.getmtime)
    for p in old[:-3]: shutil.rmtree(p, ignore_errors=True)
    return ll, nat, k


def all():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        shim()
        return (engine(),) + program()


if __name__ == '__main__':
    t = time.time()
    print(all(), '%.1f s' % (time.time() - t))
