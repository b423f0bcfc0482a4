"""Which files are analyzed."""
from c06 import pick, opt, bit, B8, OTHER32, LINUX
from c20 import ife
from prog import *
from rec import *
import elf, z3

T, F = z3.BoolVal(True), z3.BoolVal(False)
RV, RV2, V6 = 'riscv32imac-unknown-none-elf', 'riscv32imc-unknown-none-elf', 'armv7r-none-eabi'
NF = 6


def names(v, texts):
    """content: texts[v]; the shorter ones end early"""
    n = max(map(len, texts))
    return [ord(texts[0][i]) if all(len(t) > i and t[i] == texts[0][i] for t in texts) else ife(v, [ord(t[i]) if i < len(t) else 0 for t in texts]) for i in range(n)]


def program(target, exe=None, ir=None, obj=None):
    """exe: the executable has a function x<exe>; ir: `c` calls f<ir>; obj: the recorded size of `c`"""
    p = Program(target)
    for i in range(NF): p.fn('f%d' % i, stack=4, ir=[])
    p.fn('c', stack=8 * ((obj or 0) + 1), ir=['call void @f%d()' % (ir or 0)])
    if exe is not None: p.fn('x%d' % exe, declared=False)
    p.layout()
    return p


def place_exe(s, path, k, target=RV):
    s.add(path, program(target, exe=k).exe())


def place_ll(s, path, k, target=RV, obj=True):
    """an IR file and the object file next to it"""
    p = program(target, ir=k, obj=k)
    s.add(path, p.ir_text('app'))
    if obj: s.add(path[:-3] + '.o', elf.stack_object(p.sizes('app'), p.cls, {32: 40, 64: 62}[p.cls], thumb=False))


def scaffold(s, args, root='proj', tdir='proj/target/%s/release/' % RV, target=RV):
    s.add(root + '/Cargo.toml', '[package]\nname = "proj"\nversion = "0.1.0"\nedition = "2021"\n')
    s.add(root + '/src/main.rs', 'fn main() {}\n')
    p = program(target)
    bo = elf.stack_object([], p.cls, 40, thumb=False)
    s.add(tdir + 'deps/libcompiler_builtins-4f5e6d7c8b9a0123.rlib', elf.ar([('compiler_builtins-4f5e6d7c8b9a0123.compiler_builtins.1a2b3c4d-cgu.0.rcgu.o', bo)]))
    s.add(tdir + 'deps/compiler_builtins-4f5e6d7c8b9a0123.ll', p.ir_text('builtins'))
    marks = '@CARGO_CALL_STACK:compiler_builtins_ll_path@%s\n@CARGO_CALL_STACK:compiler_builtins_rlib_path@%s\n' % (
        s.path(tdir + 'deps/compiler_builtins-4f5e6d7c8b9a0123.ll'), s.path(tdir + 'deps/libcompiler_builtins-4f5e6d7c8b9a0123.rlib'))
    s.args += [items(a) for a in args]
    s.procs.append(Proc('vv', 'rustc', ['-vV'], RUSTC_VV % HASH))
    s.procs.append(Proc('cfg', 'rustc', [], CFG_THUMB if 'none' in target else CFG_LINUX))
    s.procs.append(Proc('cargo', 'cargo', ['rustc'], '', '   Compiling proj v0.1.0\n' + marks))
    s.envs.append(items('HOME=/nonexistent'))


def which(c):
    """truth: exe / ll: {key: condition under which it is the one that counts}; loud: condition under which there is none"""
    loud = c.T.get('loud', F)
    if not c.ok:
        c.fail('the analysis fails: %s %s' % (c.rec.kind, c.rec.code), z3.Not(loud))
        c.require(not c.rec.out, 'something is printed although the artifacts are missing')
        c.require(c.rec.kind != 'exit' or c.rec.code != 0, 'success without a graph')
        c.tag = 'refused'
        return
    c.require(z3.Not(loud), 'a graph is printed although the artifacts are missing')
    g = c.graph()
    ns = {show(n.name): n for n in g.nodes.values()}
    e = g.edge_names()
    for k, cond in c.T.get('exe', {}).items(): c.require(z3.BoolVal('x%d' % k in ns) == cond if 'x%d' % k in ns else z3.Or(loud, z3.Not(cond)), 'another executable is analyzed')
    if 'c' not in ns:
        c.fail('c is not shown')
        return
    loc = ns['c'].local
    for k, cond in c.T.get('ll', {}).items():
        has = ('c', 'f%d' % k) in e
        c.require(cond if has else z3.Or(loud, z3.Not(cond)), 'another IR file is analyzed')
        c.require(z3.Implies(cond, loc == 8 * (k + 1) if loc is not None else F), 'another object file is used')
    c.tag = 'graph'


# ---- modification times of the candidates
def times(name, kind, n, nano=False, files=None, obj_times=False):
    def gen(root):
        s = Scenario(root, name)
        tdir = 'proj/target/%s/release/' % RV
        d = tdir + ('examples/' if kind == 'example' else 'deps/')
        place_exe(s, tdir + ('examples/app' if kind == 'example' else 'app'), 0)
        ts = []
        for k in range(n):
            f = 'app-%016x.ll' % [0x1122334455667788, 0xa0, 0xffee000000000001, 0x7f00000000000000][k]
            place_ll(s, d + f, k)
            t = s.var('t%d' % k, 64)
            s.assume(t >= 1, t < 2**33)
            if nano:
                u = s.var('u%d' % k, 32)
                s.assume(z3.ULT(u, 10**9))
                s.mtimes[f] = (t, u)
                ts.append((t, z3.ZeroExt(32, u)))
            else:
                s.mtimes[f] = t
                ts.append((t, z3.BitVecVal(0, 64)))
            if obj_times:
                o = s.var('o%d' % k, 64)
                s.assume(o >= 1, o < 2**33)
                s.mtimes[f[:-3] + '.o'] = o
        lt = lambda a, b: z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] < b[1]))
        for i in range(n):
            for j in range(i): s.assume(z3.Or(ts[i][0] != ts[j][0], ts[i][1] != ts[j][1]))
        scaffold(s, ['--target', RV, '--' + kind, 'app'])
        s.truth['exe'] = {0: T}
        s.truth['ll'] = {i: z3.And([lt(ts[j], ts[i]) for j in range(n) if j != i]) for i in range(n)}
        return s
    return gen


# ---- files of others
NOISE = ['app_x-0123456789abcdef.ll', 'app.ll', 'appx-0123456789abcdef.ll', 'App-0123456789abcdef.ll', 'my-app-0123456789abcdef.ll', 'libapp-0123456789abcdef.ll', 'ap-0123456789abcdef.ll', 'app_-0123456789abcdef.ll']
OTHERS = ['app-0123456789abcdef.txt', 'app-0123456789abcdef.ll.bak', 'app-0123456789abcdef', 'app-0123456789abcdef.LL', 'app-0123456789abcdef.d', 'app-0123456789abcdef.rcgu.o', 'app-0123456789abcde.llx', 'app-0123456789abcde.bc']


def noise(name, kind, pool):
    def gen(root):
        s = Scenario(root, name)
        tdir = 'proj/target/%s/release/' % RV
        d = tdir + ('examples/' if kind == 'example' else 'deps/')
        o = tdir + ('deps/' if kind == 'example' else 'examples/')
        place_exe(s, tdir + ('examples/app' if kind == 'example' else 'app'), 0)
        files = [(d + 'app-8899aabbccddeeff.ll', 0)] + [(d + f, 1) for f in pool] + [(o + 'app-9999aabbccddeeff.ll', 2)]
        t0 = None
        for i, (f, k) in enumerate(files):
            if f.endswith('.ll'): place_ll(s, f, k)
            else: s.add(f, program(RV, ir=k, obj=k).ir_text('app'))
            t = s.var('t%d' % i, 64)
            s.assume(t >= 1, t < 2**33)
            s.mtimes[os.path.basename(f)] = t
        scaffold(s, ['--target', RV, '--' + kind, 'app'])
        s.truth['exe'] = {0: T}
        s.truth['ll'] = {0: T, 1: F, 2: F}
        return s
    return gen


# ---- names, kinds and targets
def select(name, kinds, ns, targets, holes=()):
    """all combinations exist; one is asked for"""
    def gen(root):
        s = Scenario(root, name)
        a, b, t = s.var('kind', 1), s.var('name', 3), s.var('target', 1)
        if len(kinds) == 1: s.assume(a == 0)
        if len(targets) == 1: s.assume(t == 0)
        s.assume(z3.ULT(b, len(ns)))
        ex, ll, loud = {}, {}, []
        k = 0
        for ti, tg in enumerate(targets):
            for ki, kd in enumerate(kinds):
                for ni, nm in enumerate(ns):
                    tdir = 'proj/target/%s/release/' % tg
                    cond = z3.And(a == ki, b == ni, t == ti)
                    if (ki, ni, 'exe') not in holes: place_exe(s, tdir + ('examples/' if kd == 'example' else '') + nm, k, tg)
                    else: loud.append(cond)
                    if (ki, ni, 'll') not in holes: place_ll(s, tdir + ('examples/' if kd == 'example' else 'deps/') + nm.replace('-', '_') + '-0123456789abcdef.ll', k % NF, tg)
                    else: loud.append(cond)
                    if (ki, ni, 'obj') in holes:
                        del s.files[tdir + ('examples/' if kd == 'example' else 'deps/') + nm.replace('-', '_') + '-0123456789abcdef.o']
                        loud.append(cond)
                    ex[k] = cond
                    ll.setdefault(k % NF, []).append(cond)
                    k += 1
        scaffold(s, ['--target', names(t, targets + targets[:1]) if len(targets) > 1 else targets[0], names(a, ['--' + x for x in kinds] * 2) if len(kinds) > 1 else '--' + kinds[0], names(b, ns)],
                 tdir='proj/target/%s/release/' % targets[0])
        s.truth['exe'] = ex
        s.truth['ll'] = {i: z3.Or(v) for i, v in ll.items()}
        s.truth['loud'] = z3.Or(loud + [F])
        return s
    return gen


# ---- where the target directory is
def where(name, flag=None, conf=None, env=None, tdir='target', conf_dir=None, workspace=False, kind='bin', cwd=None, conf_file='config.toml'):
    def gen(root):
        s = Scenario(root, name)
        b = s.var('b', 1)
        pr = 'ws/proj' if workspace else 'proj'
        s.cwd = cwd or pr
        eff = flag or conf
        cand = []
        for base in (['ws/target', 'ws/proj/target'] if workspace else ['proj/target']) + ['proj/alt' if not workspace else 'ws/proj/alt', 'elsewhere']:
            for tg in (RV, RV2, None): cand.append((base, tg))
        good = ('ws/target' if workspace else 'proj/target')
        if conf_dir: good = conf_dir
        if env: good = env
        ex, ll = {}, {}
        for k, (base, tg) in enumerate(cand):
            d = s_dir = base + '/' + (tg + '/' if tg else '') + 'release/'
            for j, nm in enumerate(['app', 'apq']):
                place_exe(s, d + ('examples/' if kind == 'example' else '') + nm, 2 * k + j)
                place_ll(s, d + ('examples/' if kind == 'example' else 'deps/') + nm + '-0123456789abcdef.ll', (2 * k + j) % NF)
                ex[2 * k + j] = z3.And(b == j, z3.BoolVal(base == good and tg == eff))
                ll.setdefault((2 * k + j) % NF, []).append(ex[2 * k + j])
        conf_text = ''
        if conf or conf_dir:
            conf_text = '[build]\n' + ('target = "%s"\n' % conf if conf else '') + ('target-dir = "%s"\n' % s.path(conf_dir) if conf_dir else '')
            s.add(('ws' if workspace else 'proj') + '/.cargo/' + conf_file, conf_text)
        if workspace: s.add('ws/Cargo.toml', '[workspace]\nmembers = ["other", "pro*"]\n')
        scaffold(s, (['--target', flag] if flag else []) + ['--' + kind, cat('ap', z3.If(b == 0, B8(112), B8(113)))], root=pr, tdir='misc/')
        if env: s.envs.append(items('CARGO_TARGET_DIR=' + s.path(env)))
        s.truth['exe'] = ex
        s.truth['ll'] = {i: z3.Or(v) for i, v in ll.items()}
        return s
    return gen


def scenarios(tier):
    th = tier == 'thorough'
    R = dict(oracle=which, reach=['graph'])
    q = [
        dict(name='times-example', gen=times('te', 'example', 4 if th else 3), **R),
        dict(name='times-bin', gen=times('tb', 'bin', 3, obj_times=True), **R),
        dict(name='times-nano', gen=times('tn', 'bin', 3 if th else 2, nano=True), **R),
        dict(name='noise-example', gen=noise('ne', 'example', NOISE), **R),
        dict(name='noise-bin', gen=noise('nb', 'bin', NOISE), **R),
        dict(name='noise-other', gen=noise('no', 'example', OTHERS), **R),
        dict(name='select-kind', gen=select('sk', ['example', 'bin'], ['app', 'app-x', 'ap', 'x'], [RV]), **R),
        dict(name='select-target', gen=select('st', ['bin'], ['app-x-y', 'app'], [RV, RV2]), **R),
        dict(name='missing', gen=select('sm', ['example', 'bin'], ['app', 'app-x', 'ap', 'x'], [RV], holes={(0, 0, 'exe'), (0, 1, 'll'), (0, 2, 'obj'), (1, 1, 'll'), (1, 2, 'exe'), (1, 3, 'obj')}), oracle=which, reach=['graph', 'refused']),
        dict(name='where-flag', gen=where('wf', flag=RV), **R),
        dict(name='where-config', gen=where('wc', conf=RV), **R),
        dict(name='where-legacy', gen=where('wl', conf=RV, conf_file='config'), **R),
        dict(name='where-both', gen=where('wb', flag=RV2, conf=RV, kind='example'), **R),
        dict(name='where-neither', gen=where('wn'), **R),
        dict(name='where-dir', gen=where('wd', flag=RV, conf_dir='elsewhere'), **R),
        dict(name='where-env', gen=where('we', flag=RV, env='elsewhere'), **R),
        dict(name='where-env-dir', gen=where('wx', flag=RV, env='proj/alt', conf_dir='elsewhere', kind='example'), **R),
        dict(name='where-workspace', gen=where('ww', flag=RV, workspace=True), **R),
        dict(name='where-inside', gen=where('wi', conf=RV, cwd='proj/src'), **R),
    ]
    return q


BOUNDS = 'up to 3 candidate IR files (4 thorough) with any positive modification times below 2^33 s (nanoseconds for two), 16 files of others with any times; four names, both kinds, two targets; the target directory by default, in the configuration file, the environment, or a workspace. Equal times are outside'
