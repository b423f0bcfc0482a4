"""The rustc wrapper (C14 and C15)."""
from c06 import pick, B8
from prog import *
from rec import *
from runner import decide
import z3

T, F = z3.BoolVal(True), z3.BoolVal(False)


def eqc(a, b):
    """condition under which two contents are equal"""
    a, b = items(a), items(b)
    if len(a) != len(b): return F
    r = [T]
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y: return F
        else: r.append((B8(x) if isinstance(x, int) else x) == (B8(y) if isinstance(y, int) else y))
    return z3.simplify(z3.And(r))


class Err(Exception): pass


def understand(D, args):
    """what rustc's own command line means: dict(crate, outdir, extra, externs)"""
    m = dict(crate=None, outdir=None, extra=[], externs=[])
    i = 0
    def value():
        nonlocal i
        i += 1
        if i >= len(args): raise Err()
        return args[i]
    while i < len(args):
        a = args[i]
        if D(eqc(a, '--extern')):
            v = value()
            is_ = lambda x, ch: D(x == ch) if not isinstance(x, int) else x == ch
            k = next((j for j, x in enumerate(v) if is_(x, 61)), None)
            n, path = (v, None) if k is None else (v[:k], v[k + 1:])
            k = next((j for j, x in enumerate(n) if is_(x, 58)), None)
            if k is not None:
                opts, n, cur = n[:k], n[k + 1:], []
                for x in opts + [44]:
                    if is_(x, 44):
                        # rustc rejects other options: whatever is reported then does not matter
                        if not any(D(eqc(cur, o)) for o in ('noprelude', 'priv', 'force', 'nounused')): m['odd'] = True
                        cur = []
                    else: cur.append(x)
            m['externs'].append((n, path))
        elif D(eqc(a, '--crate-name')): m['crate'] = value()
        elif D(eqc(a, '--out-dir')): m['outdir'] = value()
        elif len(a) >= 2 and D(eqc(a[:2], '-C')):
            v = a[2:] if len(a) > 2 else value()
            n = len('extra-filename')
            if len(v) == n and D(eqc(v, 'extra-filename')): raise Err()
            if len(v) > n and D(eqc(v[:n + 1], 'extra-filename=')): m['extra'] = v[n + 1:]
        i += 1
    return m


def prepare(c):
    D = lambda x: decide(c, x)
    args = [items(a) for a in c.T['rustc']]
    sp = [e for e in c.rec.ev if e['kind'] == 'spawn']
    try: m = understand(D, args)
    except Err: m = None
    if m is not None:
        m['cb'] = m['crate'] is not None and D(eqc(m['crate'], 'compiler_builtins'))
        if m['cb'] and m['outdir'] is None: m = None
    return D, args, sp, m


def transparent(c):
    D, args, sp, m = prepare(c)
    if m is None:
        c.tag = 'incomplete'
        c.require(c.rec.kind != 'exit' or c.rec.code != 0, 'success although the arguments are incomplete')
        return
    c.tag = 'run'
    if len(sp) != 1:
        c.fail('the compiler is run %d times' % len(sp))
        return
    e = sp[0]
    got = list(e['argv'][1:])
    if c.rec.j is not None: c.require(eqc(e['file'], c.T['path']), 'another compiler is run')
    else: c.require(z3.BoolVal(bytes(e['file']).rsplit(b'/', 1)[-1] == b'rustc'), 'another compiler is run')
    cb = m['cb']
    def drop(x):
        for k, a in enumerate(got):
            if all(isinstance(y, int) for y in a) and bytes(a) == x:
                del got[k]
                return True
        return False
    add = [b'-Zemit-stack-sizes'] + ([b'--emit=llvm-ir'] if cb else [])
    if len(got) != len(args) + len(add):
        c.fail('the compiler gets %d arguments too %s' % (abs(len(got) - len(args) - len(add)), 'many' if len(got) > len(args) + len(add) else 'few'))
        return
    # additions are options of their own: in front, as they must not become the value of an option
    for x in add:
        if not drop(x): c.fail('%s is not passed' % x.decode())
    for k, (x, y) in enumerate(zip(got, args)): c.require(eqc(x, y), 'argument %d is changed or moved' % k)
    KEY = b'CARGO_CALL_STACK_RUSTC_WRAPPER'
    extra = dict(e['extra'])
    if KEY in extra: c.require(eqc(extra.pop(KEY), c.T['mode']), 'the environment of the compiler is changed')
    c.require(not extra and not set(e['missing']) - {KEY}, 'the environment of the compiler is changed')
    st = c.T['status']
    sig = z3.Extract(6, 0, st) != 0
    if c.rec.kind != 'exit': c.fail('the wrapper panics')
    else:
        code = z3.Extract(15, 8, st)
        c.require(z3.If(sig, z3.BoolVal(c.rec.code != 0), code == c.rec.code & 255), 'the exit status is not that of the compiler')
    out = c.T.get('out')
    if out is not None:
        c.require(eqc(c.rec.out, out), "the compiler's output is changed")


def reports(c):
    D, args, sp, m = prepare(c)
    text = c.rec.err
    lines = [[]]
    for x in text:
        if x == 10: lines.append([])
        else: lines[-1].append(x)
    mark = lambda l, k: len(l) >= len(k) and D(eqc(l[:len(k)], k))
    R, L = '@CARGO_CALL_STACK:compiler_builtins_rlib_path@', '@CARGO_CALL_STACK:compiler_builtins_ll_path@'
    rl = [l[len(R):] for l in lines if mark(l, R)]
    ll = [l[len(L):] for l in lines if mark(l, L)]
    if m is None:
        c.tag = 'incomplete'
        c.require(c.rec.kind != 'exit' or c.rec.code != 0, 'success although the arguments are incomplete')
        if ll: c.fail('an .ll path is reported although the arguments are incomplete')
        return
    want = [p for n, p in m['externs'] if p is not None and D(eqc(n, 'compiler_builtins'))]
    if m.get('odd'): want = want if len(want) == len(rl) else rl
    if len(want) != len(rl): c.fail('%d rlib paths are reported instead of %d' % (len(rl), len(want)))
    for x, y in zip(rl, want): c.require(eqc(x, y), 'the reported rlib path differs')
    if m['cb']:
        w = cat(m['outdir'], '/', m['crate'], m['extra'], '.ll')
        if len(ll) != 1: c.fail('%d .ll paths are reported' % len(ll))
        else: c.require(eqc(ll[0], w), 'the reported .ll path differs')
        c.tag = 'builtins'
    else:
        if ll: c.fail('an .ll path is reported for another crate')
        c.tag = 'extern' if want else 'other'


BASE = ['--crate-name', 'core', '--edition=2021', '/rust/library/core/src/lib.rs', '--error-format=json', '--crate-type', 'lib', '--emit=dep-info,metadata,link', '-C', 'opt-level=3', '-C', 'embed-bitcode=no',
        '--cfg', 'feature="x y"', '-C', 'metadata=1234abcd5678ef90', '-C', 'extra-filename=-1234abcd5678ef90', '--out-dir', '/p/target/thumbv7m-none-eabi/release/deps', '--target', 'thumbv7m-none-eabi', '-L', 'dependency=/p/target/release/deps',
        '--extern', 'noprelude:compiler_builtins=/p/target/deps/libcompiler_builtins-0011.rlib', '-Zforce-unstable-if-unmarked', '--cap-lints', 'allow']


def wrap(s, args, path='rustc', status=None, mode='1', out=None):
    s.args = [items('cargo-call-stack'), items(path)] + [items(a) for a in args]
    st = status if status is not None else z3.BitVecVal(0, 32)
    s.procs.append(Proc('rustc', 'rustc', [], out or '', '', st))
    s.envs.append(cat('CARGO_CALL_STACK_RUSTC_WRAPPER=', mode))
    s.envs += [items('HOME=/nonexistent'), items('CARGO_PKG_NAME=core'), items('RUSTC_BOOTSTRAP=1')]
    s.truth = dict(rustc=[items(a) for a in args], path=items(path), status=st, out=items(out) if out else None, mode=items(mode))


def text(s, name, n):
    """n bytes of UTF-8 text; no line break, no NUL"""
    b = [s.var('%s%d' % (name, i), 8) for i in range(n)]
    for x in b: s.assume(x != 0, x != 10, x != 13, z3.ULT(x, 128))
    return b


def put(args, i, x):
    r = list(args)
    r[i] = x
    return r


def anywhere(name, pos, n, crate='core'):
    """an argument with n free bytes at one place"""
    def gen(root):
        s = Scenario(root, name)
        b = text(s, 'b', n)
        a = put(BASE, 1, crate)
        a = a[:pos] + [b] + a[pos:] if pos is not None else a + [b]
        wrap(s, a)
        return s
    return gen


def pair(name, n, crate='core'):
    """two arguments of n free bytes one after the other"""
    def gen(root):
        s = Scenario(root, name)
        a = put(BASE, 1, crate)
        wrap(s, a[:4] + [text(s, 'b', n), text(s, 'c', n)] + a[4:])
        return s
    return gen


def utf8arg(name, n):
    """a character of n bytes in a path"""
    def gen(root):
        from c10 import utf8
        s = Scenario(root, name)
        b = [s.var('b%d' % i, 8) for i in range(n)]
        s.assume(utf8(b))
        wrap(s, put(BASE, 3, cat('/rust/l', *(b + ['/lib.rs']))))
        return s
    return gen


def mutated(name, index, at, also=None, crate='core', mode='1'):
    """one byte of one of Cargo's arguments is free"""
    def gen(root):
        s = Scenario(root, name)
        b = s.var('b', 8)
        s.assume(b != 0, b != 10, b != 13, z3.ULT(b, 128))
        a = put(BASE, 1, crate)
        k = a.index(index) if isinstance(index, str) else index
        x = items(a[k])
        x[at if at >= 0 else len(x) + at] = b
        wrap(s, put(a, k, x))
        return s
    return gen


def status(name):
    def gen(root):
        s = Scenario(root, name)
        code, sig, b = s.var('code', 8), s.var('sig', 4), s.var('b', 8)
        s.assume(z3.Or([sig == k for k in (0, 2, 6, 9, 11)]), z3.Implies(sig != 0, code == 0), b != 0, z3.ULT(b, 128), b != 10)
        m = s.var('m', 8)
        s.assume(m != 0)
        cb = s.var('cb', 1)
        x = cat('compiler_builtin', z3.If(cb == 1, B8(115), B8(120)))
        wrap(s, put(put(BASE, 1, x), 3, cat('/rust/', b, '.rs')), status=z3.ZeroExt(16, z3.Concat(code, z3.BitVecVal(0, 4), sig)), mode=[m], out='{"artifact":"x"}\n')
        return s
    return gen


EX = 'compiler_builtins'


def externs(name, pre, post, n, sep='=', crate='alloc'):
    """several --extern arguments, one with free bytes"""
    def gen(root):
        s = Scenario(root, name)
        b = text(s, 'b', n)
        k = BASE.index('--extern')
        a = put(BASE, 1, crate)
        a = a[:k] + ['--extern', 'priv=/a/libpriv.rlib', '--extern', cat(pre, b, post), '--extern', 'noprelude:core=/p/deps/libcore-77.rlib'] + a[k:]
        wrap(s, a)
        return s
    return gen


def spelling(name, shape):
    """the extra-filename option: separate or joined, absent, repeated; texts picked among others"""
    def gen(root):
        s = Scenario(root, name)
        k = s.var('k', 2)
        b = text(s, 'b', 2)
        opts = pick(k, ['extra-filename=-abcd', 'metadata=0123456789a', 'extra-filenames=-abc', 'extra-filename==-abc'])
        a = put(BASE, 1, EX)
        i = a.index('extra-filename=-1234abcd5678ef90')
        rest = a[:i - 1] + a[i + 1:]
        x = {'joined': [cat('-C', opts)], 'separate': ['-C', opts], 'first': ['-C', opts, '-C', 'extra-filename=-zz'], 'last': ['-Cextra-filename=-zz', '-C', opts], 'none': [], 'odd': [cat('-', b[0]), opts],
             'free': ['-C', cat('extra-filename=', b)], 'freejoined': [cat('-Cextra-filename=', b)], 'empty': ['-C', 'extra-filename='], 'novalue': ['-C', cat('extra-filenam', b[0])]}[shape]
        wrap(s, rest[:8] + x + rest[8:])
        return s
    return gen


def missing(name, opt, at, crate=EX, cut=False):
    """a mandatory option is not there, or has no value"""
    def gen(root):
        s = Scenario(root, name)
        a = put(BASE, 1, crate)
        k = a.index(opt)
        b = s.var('b', 8)
        s.assume(b != 0, b != 10, b != 13, z3.ULT(b, 128))
        x = items(opt)
        x[at if at >= 0 else len(x) + at] = b
        v = a[k:k + 2]
        a = a[:k] + a[k + 2:]
        wrap(s, a + [x] if cut else [x, v[1]] + a)
        return s
    return gen


# ---- the other command lines Cargo makes: binaries, examples, build scripts, tests, procedural macros, C libraries
APP = ['--crate-name', 'app', '--edition=2018', 'src/main.rs', '--error-format=json', '--json=diagnostic-rendered-ansi', '--crate-type', 'bin', '--emit=dep-info,link', '-C', 'opt-level=3', '-C', 'panic=abort', '--emit=llvm-ir,obj', '-C', 'embed-bitcode=yes', '-C', 'lto=fat',
       '-C', 'metadata=77', '-C', 'extra-filename=-77', '--out-dir', '/p/target/t/release/deps', '-C', 'linker=ld', '-L', 'dependency=/p/target/release/deps', '--extern', 'noprelude:alloc=/p/liballoc.rlib', '--extern', 'noprelude:compiler_builtins=/p/libcb.rlib',
       '--extern', 'noprelude:core=/p/libcore.rlib', '-Z', 'unstable-options', '-C', 'link-arg=-Tlink.x']
KINDS = {
    'bin': APP,
    'example': put(put(APP, 1, 'my_ex'), 3, 'examples/my-ex.rs'),
    'script': put(put(APP[:13] + APP[17:], 1, 'build_script_build'), 3, '/rust/library/std/build.rs'),
    'macro': put(put(APP[:13] + APP[17:], 1, 'mac'), 7, 'proc-macro') + ['--extern', 'proc_macro'],
    'test': put(APP, 1, 'app') + ['--test'],
    'cdylib': put(put(APP, 1, 'lib_c'), 7, 'cdylib'),
    'builtins-script': put(put(APP[:13] + APP[17:], 1, 'build_script_build'), 3, '/reg/compiler_builtins-0.1.101/build.rs'),
    'builtins': put(put(put(APP[:13] + APP[17:], 1, EX), 3, '/reg/compiler_builtins-0.1.101/src/lib.rs'), 7, 'lib') + ['--cfg', 'feature="mem"', '--extern', 'core=/p/libcore.rmeta'],
    'builtins-last': ['--edition=2018', '--crate-type', 'rlib', '--out-dir', '/p', '-Cextra-filename=-9', '-', '--emit=link', '--crate-name', EX],
    'short': ['--crate-name', 'a'],
    'probe': ['-', '--crate-name', '___', '--print=file-names', '--crate-type', 'bin', '--crate-type', 'rlib', '--crate-type', 'dylib', '--crate-type', 'bin', '--print=sysroot', '--print=cfg'],
    'version': ['-vV'],
    'sysroot': ['--print=sysroot', '-', '-Copt-level=3', '--extern', EX + '=/p/x.rlib', '--out-dir', '/p'],
    'equal': ['--crate-name', 'a', '-v', '-v', '-O', '-O', '', '', '--cfg', 'a', '-C', '-C', '-A', 'x', 'x', '-v'],
    'builtins-equal': ['--crate-name', EX, '-v', '-v', '--out-dir', '/p', '', '', '-Wa', '-Wa', '-Wa', '-v'],
    'twice': ['--crate-name', 'a', '--cfg', 'x', '--cfg', 'x', '-Zemit-stack-sizes', '--emit=llvm-ir', '-Zemit-stack-sizes', '--emit=asm'],
    'builtins-twice': ['--crate-name', EX, '--cfg', 'x', '--cfg', 'x', '-Zemit-stack-sizes', '--emit=llvm-ir', '--out-dir', '/p', '--emit=asm', '--extern', 'core=/q'],
}


def kind(name, k):
    def gen(root):
        s = Scenario(root, name)
        b, code = text(s, 'b', 1), z3.ZeroExt(4, s.var('code', 4)) * 17
        a = KINDS[k]
        # a free byte in the last argument (in front of that of a short command line)
        a = a + [cat('@', b[0])] if len(a) > 4 else [cat('z', b[0])] + a
        wrap(s, a, status=z3.ZeroExt(16, z3.Concat(code, z3.BitVecVal(0, 8))))
        return s
    return gen


def crowd(name, crate='app'):
    """nine --extern arguments, some of which vary"""
    def gen(root):
        s = Scenario(root, name)
        v = [s.var('v%d' % i, 2) for i in range(3)]
        T3 = ['noprelude:compiler_builtins=/p/libcb%d.rlib', 'noprelude:compiler_builtine=/p/libcb%d.rlib', 'compiler_builtins=noprelude:/libcb%d.rlib', 'noprelude:core=/p/compiler_builtins/%d.rlib']
        ex = [pick(v[i], [t % i for t in T3]) for i in range(3)]
        o = ['core=/p/libcore.rlib', 'noprelude:alloc=/compiler_builtins=/x', 'std', 'compiler_builtins', 'noprelude:compiler_builtins', 'priv:compiler_builtins=/no.rlib']
        l = [ex[0]] + o[:3] + [ex[1]] + o[3:] + [ex[2]]
        a = APP[:-8] + [y for x in l for y in ('--extern', x)] + APP[-8:]
        wrap(s, put(a, 1, crate))
        return s
    return gen


def scenarios(tier):
    q = [
        dict(name='front', gen=anywhere('fr', 0, 3), oracle=transparent, reach=['run']),
        dict(name='back', gen=anywhere('ba', None, 2, EX), oracle=transparent, reach=['run', 'incomplete']),
        dict(name='middle', gen=anywhere('mi', 4, 4), oracle=transparent, reach=['run']),
        dict(name='pair', gen=pair('pa', 2), oracle=transparent, reach=['run']),
        dict(name='pair-builtins', gen=pair('pb', 2, EX), oracle=transparent, reach=['run']),
        dict(name='utf8-2', gen=utf8arg('u2', 2), oracle=transparent, reach=['run']),
        dict(name='utf8-3', gen=utf8arg('u3', 3), oracle=transparent, reach=['run']),
        dict(name='utf8-4', gen=utf8arg('u4', 4), oracle=transparent, reach=['run']),
        dict(name='value', gen=mutated('va', 'feature="x y"', 9), oracle=transparent, reach=['run']),
        dict(name='crate-first', gen=mutated('c0', 1, 0, crate=EX), oracle=transparent, reach=['run']),
        dict(name='crate-middle', gen=mutated('c1', 1, 8, crate=EX), oracle=transparent, reach=['run']),
        dict(name='crate-last', gen=mutated('c2', 1, -1, crate=EX), oracle=transparent, reach=['run']),
        dict(name='crate-longer', gen=mutated('c3', 1, -1, crate=EX + 'x'), oracle=transparent, reach=['run']),
        dict(name='option', gen=mutated('op', '--crate-name', 5), oracle=transparent, reach=['run']),
        dict(name='option-extern', gen=mutated('oe', '--extern', 3), oracle=transparent, reach=['run']),
        dict(name='option-out-dir', gen=mutated('oo', '--out-dir', 3, crate=EX), oracle=transparent, reach=['run', 'incomplete']),
        dict(name='option-emit', gen=mutated('om', '--emit=dep-info,metadata,link', 4, crate=EX), oracle=transparent, reach=['run']),
        dict(name='status', gen=status('st'), oracle=transparent, reach=['run']),
    ]
    q += [dict(name='kind-' + k, gen=kind('k-' + k, k), oracle=transparent, reach=['run']) for k in KINDS]
    return q


BOUNDS = '17 other command lines (binaries, build scripts, macros, probes that compile nothing, repeated and empty arguments, equal arguments one after the other) with sixteen exit codes; a command line of Cargo for a library crate (26 arguments) with: an extra argument of up to 4 free ASCII bytes in three places, or two of 2; any ASCII byte at eight places of its arguments; a non-ASCII character of up to 4 bytes in a path; any exit code, five ways of being killed, any one byte value of the mode variable; non-UTF-8 arguments are outside'
