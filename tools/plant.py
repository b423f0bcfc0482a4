"""plant.py BATCH.py [ids]: confirm planted bugs (build, tests, demo both ways) in scratch copies of /repo and
store the confirmed ones in /verif/seeded; then run the property's check against each.
A batch is a Python file that calls B(id, prop, [(file, old, new)], needs, breaks, demo)."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, time
REPO, SEED = '/repo', '/verif/seeded'
bugs = []
def B(id, prop, edits, needs, breaks, demo): bugs.append((id, prop, edits, needs, breaks, demo))
exec(open(sys.argv[1]).read())
ids = [a for a in sys.argv[2:] if not a.startswith('-')]
only = '--check' in sys.argv
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
BASE = {f: subprocess.run(['git', '-C', REPO, 'show', '43a94c1:' + f], capture_output=True, text=True).stdout.split('\n') for f in ('src/main.rs', 'src/thumb.rs', 'src/wrapper.rs', 'src/ir.rs', 'src/ir/define.rs', 'src/ir/item.rs', 'src/ir/ty.rs')}
def sh(cmd, cwd, log, t=900):
    with open(log, 'ab') as f:
        try: return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT, timeout=t).returncode
        except subprocess.TimeoutExpired: return 99
def apply(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1: return '%d occurrences in %s of %r' % (t.count(old), f, old[:60])
        open(p, 'w').write(t.replace(old, new))
    return None
def confirm(bug, d):
    id, prop, edits, needs, breaks, demo = bug
    log = '/tmp/plant/log.' + id
    open(log, 'w').close()
    sh(['git', 'checkout', '-q', '--', '.'], d, log)
    e = apply(d, edits)
    if e: return id, 'EDIT ' + e
    patch = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
    cur = None
    touched = False
    for l in patch.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]
        elif l.startswith('-') and cur and l[1:].strip() and l[1:] in BASE[cur]: touched = True
    note = '' if touched else ' (NO ORIGINAL LINE CHANGED)'
    o = os.path.join(SEED, id)
    dem = '/tmp/plant/demo.' + id
    shutil.rmtree(dem, ignore_errors=True)
    shutil.copytree('/verif/tools/demo', dem, ignore=shutil.ignore_patterns('__pycache__'))
    open(dem + '/demo.py', 'w').write('from lab import *\n' + demo.strip('\n') + '\ndone()\n')
    if sh(['bash', dem + '/demo.sh'], REPO, log): return id, 'DEMO FAILS ON THE UNCHANGED TREE, see ' + log
    if sh(['cargo', 'test', '--workspace', '--no-run', '--offline'], d, log): return id, 'DOES NOT BUILD, see ' + log
    if sh(['bash', dem + '/demo.sh'], d, log) == 0: return id, 'DEMO PASSES WITH THE BUG'
    sh(['rm', '-rf', d + '/firmware/target'], d, log)
    if sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '1'], d, log): return id, 'TESTS FAIL: ' + ' '.join(l.split()[1] for l in open(log, errors='replace') if l.startswith('test ') and 'FAILED' in l)
    shutil.rmtree(o, ignore_errors=True)
    shutil.move(dem, o)
    open(o + '/patch.diff', 'w').write(patch)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
    return id, 'ok' + note
def main():
    os.makedirs('/tmp/plant', exist_ok=True)
    todo = [b for b in bugs if not ids or b[0] in ids]
    if not only:
        n = min(6, len(todo))
        ds = []
        for i in range(n):
            d = '/tmp/plant/repo%d.%d' % (os.getpid(), i)
            if not os.path.exists(d): subprocess.run(['cp', '-a', REPO, d], check=True)
            else: subprocess.run('git fetch -q %s main && git checkout -q -f FETCH_HEAD' % REPO, cwd=d, shell=True, check=True)
            ds.append(d)
        import queue
        q = queue.Queue()
        for d in ds: q.put(d)
        def job(b):
            d = q.get()
            try: return confirm(b, d)
            finally: q.put(d)
        good = []
        with cf.ThreadPoolExecutor(n) as ex:
            for id, r in ex.map(job, todo):
                print('%-28s %s' % (id, r), flush=True)
                if r.startswith('ok'): good.append(id)
        todo = [b for b in todo if b[0] in good]
    check([(b[0], b[1]) for b in todo])
def check(todo):
    d = '/tmp/plant/check%d' % os.getpid()
    if not os.path.exists(d): subprocess.run(['cp', '-a', REPO, d], check=True)
    subprocess.run('git fetch -q %s main && git checkout -q -f FETCH_HEAD' % REPO, cwd=d, shell=True, check=True)
    for id, prop in todo:
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=d)
        subprocess.run(['git', 'apply', os.path.join(SEED, id, 'patch.diff')], cwd=d, check=True)
        t = time.time()
        r = subprocess.run(['python3-vt', 'harness/check.py', prop, 'quick'], cwd='/verif', env=dict(os.environ, SYMX_REPO=d), capture_output=True, text=True)
        ls = [l for l in r.stdout.split('\n') if l.strip()]
        v = [l for l in ls if 'VIOLATION' in l]
        first = next((ls[i - 1].strip() for i, l in enumerate(ls) if 'VIOLATION' in l), (ls or [''])[-1][:150])
        print('%-28s %s %s %.0fs %s' % (id, prop, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, time.time() - t, first[:140]), flush=True)
if __name__ == '__main__': main()
