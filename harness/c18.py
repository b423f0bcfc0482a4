"""Driving Cargo (C18) and refusing to (C20)."""
from c06 import pick, opt, bit, B8
from c14 import eqc, text, put
from prog import *
from rec import *
from runner import decide
import z3

T, F = z3.BoolVal(True), z3.BoolVal(False)
THUMB, LINUX = 'thumbv7m-none-eabi', 'x86_64-unknown-linux-gnu'
ENVKEY = 'CARGO_CALL_STACK_UNSPPORTED_NIGHTLY'
ENVVAL = "I won't open issues about unsupported toolchains"


def setup(s, args, status=101 << 8, stderr='error: could not compile\n', stdout='', cfg=CFG_THUMB, vv=None, config=None, envs=(), cfgs=None, errno=0, req=None):
    """a project whose build fails (or not: no artifacts then)"""
    s.add('proj/Cargo.toml', '[package]\nname = "proj"\nversion = "0.1.0"\nedition = "2021"\n')
    s.add('proj/src/main.rs', 'fn main() {}\n')
    if config: s.add('proj/.cargo/config.toml', config)
    s.args += [items(a) for a in args]
    s.procs.append(Proc('vv', 'rustc', ['-vV'], vv if vv is not None else RUSTC_VV % HASH))
    for t, o in cfgs or []: s.procs.append(Proc('cfg', 'rustc', [t], o))
    s.procs.append(Proc('cfg', 'rustc', [], cfg))
    s.procs.append(Proc('cargo', 'cargo', ['rustc'], stdout, stderr, status, errno=errno))
    s.envs.append(items('HOME=/nonexistent'))
    s.envs.append(items('RUSTFLAGS=-g'))
    s.envs += [items(e) for e in envs]
    s.truth.update(req or {})
    s.truth['status'] = status if not isinstance(status, int) else z3.BitVecVal(status, 32)
    s.truth.setdefault('stderr', items(stderr))


def spawns(c):
    sp = [e for e in c.rec.ev if e['kind'] == 'spawn']
    b = lambda f: bytes(x if isinstance(x, int) else 0 for x in f)
    name = lambda e: b(e['argv'][0]).rsplit(b'/', 1)[-1] if c.rec.j is None else b(e['file']).rsplit(b'/', 1)[-1]
    return sp, [e for e in sp if name(e) == b'cargo']


def command(c, e):
    """what the command line of Cargo asks for; complains about what it does not know"""
    D = lambda x: decide(c, x)
    a = [items(x) for x in e['argv'][1:]]
    m = dict(target=[], features=[], all=0, example=[], bin=[], release=0, std=[], emit=[], codegen=[], odd=[])
    if not a or not D(eqc(a[0], 'rustc')):
        c.fail('cargo is not asked to run rustc')
        return m
    i, mine = 1, True
    def split(x):
        """(option, value) of --option=value or --option value"""
        nonlocal i
        for k, y in enumerate(x):
            if isinstance(y, int) and y == 61: return x[:k], x[k + 1:]
        return x, None
    def value(v):
        nonlocal i
        if v is not None: return v
        i += 1
        if i >= len(a):
            c.fail('an option of cargo has no value')
            return []
        return a[i]
    while i < len(a):
        x = a[i]
        o, v = split(x)
        ob = bytes(o) if all(isinstance(y, int) for y in o) else None
        if mine:
            if ob == b'--': mine = False
            elif ob in (b'--target', b'--features', b'-F', b'--example', b'--bin'):
                m[{b'-F': 'features'}.get(ob, ob[2:].decode())].append(value(v))
            elif ob == b'--all-features': m['all'] += 1
            elif ob in (b'--release', b'-r'): m['release'] += 1
            elif ob == b'--profile': m['release'] += bytes(value(v)) == b'release'
            elif ob == b'--color': value(v)
            elif ob == b'-Z' and v is None and i + 1 < len(a):
                i += 1
                m['std'].append(bytes(a[i]))
            elif ob is not None and ob.startswith(b'-Z'): m['std'].append(bytes(x[2:]))
            else: m['odd'].append(x)
        else:
            if ob == b'--emit': m['emit'] += bytes(value(v)).split(b',')
            elif ob == b'-C':
                i += 1
                m['codegen'].append(bytes(a[i]) if i < len(a) else b'')
            elif ob is not None and ob.startswith(b'-C'): m['codegen'].append(bytes(x[2:]))
            else: m['odd'].append(x)
        i += 1
    return m


def same(c, got, want, what):
    if want is None:
        c.require(not got, '%s is passed to cargo although it was not asked for' % what)
        return
    if len(got) != 1: c.fail('%s is passed to cargo %d times' % (what, len(got)))
    else: c.require(eqc(got[0], want), '%s is not passed on as given' % what)


def driven(c):
    R = c.T
    sp, cargo = spawns(c)
    if len(cargo) != 1:
        c.fail('cargo is run %d times' % len(cargo))
        return
    e = cargo[0]
    m = command(c, e)
    c.tag = 'run'
    same(c, m['target'], R.get('target'), 'the target')
    if R.get('all'):
        c.require(m['all'] >= 1, '--all-features is not passed on')
        if m['features']: same(c, m['features'], R.get('features'), 'the feature list')
    else:
        c.require(m['all'] == 0, '--all-features is passed to cargo although it was not asked for')
        same(c, m['features'], R.get('features'), 'the feature list')
    same(c, m['example'], R.get('example'), 'the example')
    same(c, m['bin'], R.get('bin'), 'the binary')
    c.require(m['release'] == 1, 'cargo does not build in release mode')
    c.require(not m['odd'], 'cargo gets an argument that was not asked for')
    # LLVM IR, one module, the standard library too
    c.require(b'llvm-ir' in m['emit'] and b'obj' in m['emit'], 'LLVM IR and object file are not requested')
    last = {}
    for x in m['codegen']: last[x.partition(b'=')[0]] = x.partition(b'=')[2]
    c.require(last.get(b'lto') == b'fat', 'fat LTO is not requested')
    c.require(last.get(b'embed-bitcode') in (b'yes', b'y', b'on', b'true', b''), 'bitcode is not embedded')
    nostd = R.get('nostd', T)
    if len(m['std']) != 1 or not m['std'][0].startswith(b'build-std'): c.fail('the standard library is not built')
    else:
        crates = set(m['std'][0].partition(b'=')[2].split(b',')) - {b''}
        full = not crates or b'std' in crates
        c.require(nostd == z3.BoolVal(not full), 'build-std is %s' % ('not restricted although the target has no OS' if full else 'restricted although the target has an OS'))
        if not full: c.require(crates == {b'core', b'alloc', b'compiler_builtins'}, 'build-std is restricted to other crates')
    extra = dict(e['extra'])
    w = extra.pop(b'RUSTC_WRAPPER', None)
    if w is None: c.fail('the tool is not installed as a rustc wrapper')
    else:
        r = c.sc.path('bin/tool')
        c.require(eqc(w, r), 'the tool is not installed as a rustc wrapper')
    w = extra.pop(b'CARGO_CALL_STACK_RUSTC_WRAPPER', None)
    c.require(w is not None, 'the wrapper is not told what it is')
    c.require(not extra and not e['missing'], "cargo's environment is changed")
    outcome(c)


def outcome(c):
    """exit status and messages of a failing build"""
    st = c.T['status']
    code, sig = z3.Extract(15, 8, st), z3.Extract(6, 0, st)
    fails = z3.Or(code != 0, sig != 0)
    if c.rec.kind != 'exit': c.require(z3.Not(fails), 'the tool panics although cargo just failed')
    else: c.require(z3.Implies(fails, z3.If(sig != 0, z3.BoolVal(c.rec.code != 0), code == c.rec.code & 255)), "the exit status is not cargo's")
    if c.rec.out: c.require(z3.Not(fails), 'a graph is printed although the build failed')
    out = c.T.get('stderr')
    if out is not None and decide(c, fails): messages(c, out)
    if not c.T.get('success') and not c.T.get('stderr_only') and decide(c, z3.Not(fails)):
        c.require(not c.rec.out and (c.rec.kind != 'exit' or c.rec.code != 0), 'a graph although nothing was built')


MARKS = ['@CARGO_CALL_STACK:compiler_builtins_rlib_path@', '@CARGO_CALL_STACK:compiler_builtins_ll_path@']


def messages(c, out):
    """the lines of cargo, in order, except for the wrapper's; the tool's own lines may surround them"""
    D = lambda x: decide(c, x)
    cut = lambda t: [x for x in t]
    def lines(t):
        r = [[]]
        for x in t:
            if D(x == 10 if not isinstance(x, int) else z3.BoolVal(x == 10)): r.append([])
            else: r[-1].append(x)
        if not r[-1]: r.pop()
        return r
    want = [l for l in lines(out) if not any(len(l) >= len(k) and D(eqc(l[:len(k)], k)) for k in MARKS)]
    got = lines(c.rec.err)
    k = 0
    for l in want:
        while k < len(got) and not D(eqc(got[k], l)): k += 1
        if k == len(got):
            c.fail("cargo's messages are not passed through")
            return
        k += 1


# ---- command lines
def opts(name, shape, target=None, features=None, free=2, lead=False):
    """free: number of free bytes in every value"""
    def gen(root):
        s = Scenario(root, name)
        req = {}
        def val(tag, pre, post):
            b = text(s, tag, free)
            if tag != 'f':
                for x in b: s.assume(x != 47)
            if lead:
                s.assume(b[0] != 45)
                return cat(b, pre, post)
            return cat(pre, b, post)
        args = []
        for o in shape:
            o, _, how = o.partition(':')
            if o in ('--all-features', '-v', '--verbose', 'call-stack'):
                args.append(o)
                if o == '--all-features': req['all'] = True
                continue
            if o == 'start':
                args.append('main')
                continue
            if o == '--format':
                args.append(o + '=top') if how == '=' else args.extend([o, 'top'])
                continue
            v = {'--target': lambda: val('t', 'thumb', '-none-eabi'), '--features': lambda: val('f', 'a', ',b c'), '--example': lambda: val('n', 'ap', '-x'), '--bin': lambda: val('n', 'ap', '_x')}[o]()
            req[o[2:]] = v
            args += [cat(o, '=', v)] if how == '=' else [o, v]
        setup(s, args, req=req)
        return s
    return gen


def status(name, args):
    def gen(root):
        s = Scenario(root, name)
        code, sig = s.var('code', 8), s.var('sig', 5)
        s.assume(z3.Implies(sig != 0, code == 0), sig != 19, sig != 20, sig != 21, sig != 22, sig != 17, sig != 18, sig != 23, sig != 28)
        setup(s, args, status=z3.ZeroExt(16, z3.Concat(code, z3.BitVecVal(0, 3), sig)), req=dict(example=items('app')))
        return s
    return gen


def stderr(name, pre, n, post, status=101 << 8):
    """n free bytes in what cargo prints"""
    def gen(root):
        s = Scenario(root, name)
        b = [s.var('b%d' % i, 8) for i in range(n)]
        for x in b: s.assume(z3.ULT(x, 128), x != 13)
        setup(s, ['--example', 'app'], stderr=cat(pre, b, post), status=status, req=dict(example=items('app')))
        return s
    return gen


def wide(name, n):
    def gen(root):
        from c10 import utf8
        s = Scenario(root, name)
        b = [s.var('b%d' % i, 8) for i in range(n)]
        s.assume(utf8(b))
        setup(s, ['--example', 'app'], stderr=cat('error: ', b, ' \x1b[0m\n\nend'), req=dict(example=items('app')))
        return s
    return gen


def cfg(name, lines, target=THUMB):
    """one byte of rustc's answer is free; `lines` = (before, line, after)"""
    def gen(root):
        s = Scenario(root, name)
        pre, line, post = lines
        q, v = s.var('p', 8), s.var('v', 8)
        s.assume(z3.ULT(q, len(line)), z3.ULT(v, 128), v != 13, v != 10)
        out = [z3.If(q == i, v, B8(ord(x))) for i, x in enumerate(line)]
        ref = 'target_os="none"'
        eq = z3.And([x == ord(y) for x, y in zip(out, ref)]) if len(ref) == len(line) else F
        # whether there is an operating system is clear only if exactly one line says so
        setup(s, ['--example', 'app', '--target', target], cfg=cat(pre, out, post), req=dict(example=items('app'), target=items(target), nostd=eq))
        return s
    return gen


def cfgpick(name):
    def gen(root):
        s = Scenario(root, name)
        k = s.var('k', 3)
        O = ['none', 'linux', 'unknown', 'uefi', 'non', 'nonee', 'hermit', '']
        setup(s, ['--bin', 'app', '--target', 'a-b-c'], cfg=cat('panic="abort"\n', 'target_os="', pick(k, [o + '"\n' + 'x=' .ljust(12 - len(o), 'y') for o in O]), '\nunix\n'), req=dict(bin=items('app'), target=items('a-b-c'), nostd=k == 0))
        return s
    return gen


def config(name, flag, conf):
    """the target comes from the command line, the configuration file, or is the host"""
    def gen(root):
        s = Scenario(root, name)
        cs = [(THUMB, CFG_THUMB), (LINUX, CFG_LINUX)]
        eff = flag or conf or LINUX
        b = s.var('b', 8)
        s.assume(z3.And(z3.UGE(b, 97), z3.ULE(b, 122)))
        args = ['--example', cat('ap', b)] + (['--target', flag] if flag else [])
        setup(s, args, cfgs=cs, cfg='', config='[build]\ntarget = "%s"\n' % conf if conf else None, req=dict(example=cat('ap', b), target=items(flag) if flag else None, nostd=z3.BoolVal(eff == THUMB)))
        return s
    return gen


def nocargo(name, errno):
    def gen(root):
        s = Scenario(root, name)
        b = s.var('b', 8)
        s.assume(z3.And(z3.UGE(b, 97), z3.ULE(b, 122)))
        setup(s, ['--example', cat('ap', b)], errno=errno)
        return s
    return gen


def failed(c):
    c.tag = 'failed'
    c.require(not c.rec.out, 'something is printed although cargo cannot be run')
    c.require(c.rec.kind != 'exit' or c.rec.code != 0, 'success although cargo cannot be run')


def scenarios(tier):
    O = lambda n, *sh, **k: dict(name='options-' + n, gen=opts('o' + n, sh, **k), oracle=driven, reach=['run'])
    q = [
        O('example', '--example', '--target'),
        O('bin', '--target:=', '--bin:='),
        O('features', '--example', '--features', free=1),
        O('features-joined', '--features:=', '--bin', '--target', free=1),
        O('all', '--all-features', '--bin'),
        O('both', '--features', '--all-features', '--example', free=1),
        O('verbose', '-v', '--example:=', '--target', free=1),
        O('lead', '--target', '--features', '--bin', free=1, lead=True),
        O('start', '--example', 'start', '--format', free=1),
        O('format', '--format:=', '--bin', 'start', '--features', free=1),
        O('subcommand', 'call-stack', '--example', '--target', free=1),
        O('subcommand-start', 'call-stack', '--bin', 'start', '--all-features', free=1),
        dict(name='status', gen=status('st', ['--example', 'app']), oracle=driven, reach=['run']),
        dict(name='stderr', gen=stderr('se', 'warning: x\n', 3, 'y\nerror: z\n'), oracle=driven, reach=['run']),
        dict(name='stderr-end', gen=stderr('e2', '\x1b[1m\x1b[32m   Compiling\x1b[0m a v0.1.0\n', 2, ''), oracle=driven, reach=['run']),
        dict(name='stderr-marker', gen=stderr('e3', 'a\n', 1, 'CARGO_CALL_STACK:compiler_builtins_ll_path@/x\nb\n'), oracle=driven, reach=['run']),
        dict(name='stderr-marker2', gen=stderr('e4', '@CARGO_CALL_STACK:compiler_builtins_', 2, 'ib_path@/x.rlib\nb\n'), oracle=driven, reach=['run']),
        dict(name='stderr-inner', gen=stderr('e5', ' ', 1, '@CARGO_CALL_STACK:compiler_builtins_ll_path@/x\n'), oracle=driven, reach=['run']),
        dict(name='stderr-utf8', gen=wide('e6', 3), oracle=driven, reach=['run']),
        dict(name='cfg', gen=cfg('c1', ('panic="abort"\n', 'target_os="none"', '\ntarget_pointer_width="32"\n')), oracle=driven, reach=['run']),
        dict(name='cfg-first', gen=cfg('c2', ('', 'target_os="nine"', '\nunix\n'), LINUX), oracle=driven, reach=['run']),
        dict(name='cfg-last', gen=cfg('c3', ('target_env=""\n', 'target_os="none"', '')), oracle=driven, reach=['run']),
        dict(name='cfg-names', gen=cfgpick('c4'), oracle=driven, reach=['run']),
        dict(name='config', gen=config('f1', None, THUMB), oracle=driven, reach=['run']),
        dict(name='config-linux', gen=config('f2', None, LINUX), oracle=driven, reach=['run']),
        dict(name='config-flag', gen=config('f3', THUMB, LINUX), oracle=driven, reach=['run']),
        dict(name='config-flag2', gen=config('f4', LINUX, THUMB), oracle=driven, reach=['run']),
        dict(name='host', gen=config('f5', None, None), oracle=driven, reach=['run']),
        dict(name='no-cargo', gen=nocargo('n1', 2), oracle=failed, reach=['failed']),
        dict(name='no-permission', gen=nocargo('n2', 13), oracle=failed, reach=['failed'], validate=0),
    ]
    return q


BOUNDS = 'twelve command line shapes with one or two free ASCII bytes in every value; every exit code and 20 signals of cargo; up to three free ASCII bytes in its messages (no carriage return) and one three-byte character; any one byte of the target_os line of rustc; the target from the command line, the configuration file, both or neither; cargo missing or not executable. Non-UTF-8 messages are outside'
