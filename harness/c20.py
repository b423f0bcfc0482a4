from c18 import *


def refused(c):
    """truth: `supported`: condition under which cargo must be run"""
    sp, cargo = spawns(c)
    ok = c.T['supported']
    if cargo:
        c.tag = 'run'
        c.require(ok, c.T['what'])
        c.require(len(cargo) == 1, 'cargo is run more than once')
        return
    c.tag = 'refused'
    c.require(z3.Not(ok), 'a supported request is refused')
    c.require(not c.rec.out, 'something is printed')
    c.require(c.rec.kind != 'exit' or c.rec.code != 0, 'success although the request is refused')
    if c.T.get('guide'):
        t = bytes(x if isinstance(x, int) else 63 for x in c.rec.err)
        c.require(b'nightly-2023-11-13' in t and ENVKEY.encode() in t and ENVVAL.encode() in t, 'the user is not told which toolchain is supported')
    else: c.require(len(c.rec.err) > 0, 'the user is not told why')


ARGS = ['--example', 'app', '--target', THUMB]


def go(s, ok, what, args=ARGS, vv=None, envs=(), guide=True):
    setup(s, args, vv=vv, envs=envs)
    s.truth.update(supported=ok, what=what, guide=guide)


def ascii1(s, name, lo=1):
    b = s.var(name, 8)
    s.assume(z3.UGE(b, lo), z3.ULT(b, 128), b != 10, b != 13)
    return b


def mutate(s, text, tag=''):
    """one byte anywhere is free; and the condition that nothing changed"""
    t = [ord(x) for x in text]
    p, v = s.var('p' + tag, 8), ascii1(s, 'v' + tag)
    s.assume(z3.ULT(p, len(t)))
    return [z3.If(p == i, v, B8(x)) for i, x in enumerate(t)], z3.And([z3.Implies(p == i, v == x) for i, x in enumerate(t)])


def hash_(name, key=None, cut=0, more=''):
    def gen(root):
        s = Scenario(root, name)
        h, eq = mutate(s, HASH)
        if cut: h = h[:-cut]
        vv = RUSTC_VV % '@@'
        a, b = vv.split('@@')
        envs = [] if key is None else ['%s=%s' % (ENVKEY, key)]
        go(s, eq if not cut and not more else F, 'another compiler is accepted', vv=cat(a, h, more, b), envs=envs)
        return s
    return gen


def env(name, pre='', post='', where='value', good=False):
    """the compiler is not the supported one; the variable has a free byte"""
    def gen(root):
        s = Scenario(root, name)
        h = HASH if good else 'f' + HASH[1:]
        if where == 'value':
            v, eq = mutate(s, ENVVAL)
            e = cat(ENVKEY, '=', v)
        elif where == 'name':
            v, eq = mutate(s, ENVVAL)
            e, eq = cat(pre, '=', v), F
        elif where == 'around':
            b = s.var('b', 8)
            s.assume(b != 0, b != 10)
            e, eq = cat(ENVKEY, '=', pre, b, post), F
        elif where == 'case':
            u = s.var('u', 1)
            e, eq = cat(ENVKEY, '=', opt(u, ENVVAL, ENVVAL.upper())), u == 1
        else:
            k = s.var('k', 3)
            L = ['', '1', 'true', 'yes', ENVVAL[:-1], ENVVAL[1:], ENVVAL.lower(), ENVVAL]
            e = cat(ENVKEY, '=', pickz(k, L))
            eq = k == 7
        go(s, T if good else eq, 'an unsupported compiler is accepted', vv=RUSTC_VV % h, envs=[e])
        return s
    return gen


def pickz(v, texts):
    """content: texts[v]; the shorter ones end early"""
    n = max(map(len, texts))
    return [ife(v, [ord(t[i]) if i < len(t) else 0 for t in texts]) for i in range(n)]


def ife(v, col):
    e = B8(col[0])
    for k, c in enumerate(col[1:], 1): e = z3.If(v == k, B8(c), e)
    return e


def vv(name, kind):
    """what rustc -vV says otherwise"""
    def gen(root):
        s = Scenario(root, name)
        b = ascii1(s, 'b')
        good = RUSTC_VV % HASH
        if kind == 'unknown': t, ok = good.replace(HASH, 'unknown'), F
        elif kind == 'none': t, ok = good.replace('commit-hash: %s\n' % HASH, ''), F
        elif kind == 'short': t, ok = good.replace('commit-hash: ' + HASH, 'commit-hash: ' + HASH[:9]), F
        elif kind == 'elsewhere': t, ok = good.replace(HASH, '0' * 40).replace('2b603f95a 2', HASH + ' 2'), F
        elif kind == 'release': t, ok = good.replace('1.76.0', '1.77.0'), T      # the hash decides
        t = t.replace('2023', '20!3')
        out = []
        for x in t.split('!'): out += items(x) + [z3.If(z3.And(z3.UGE(b, 48), z3.ULE(b, 57)), b, B8(50))]
        go(s, ok, 'another compiler is accepted', vv=out[:-1], guide=kind != 'none')
        return s
    return gen


def fails(name):
    """rustc -vV fails"""
    def gen(root):
        s = Scenario(root, name)
        code = s.var('code', 8)
        go(s, code == 0, 'a compiler that does not say what it is is accepted', guide=False)
        s.procs[0].status = z3.ZeroExt(16, z3.Concat(code, B8(0)))
        return s
    return gen


def selection(name, args, ok):
    def gen(root):
        s = Scenario(root, name)
        b = s.var('b', 8)
        s.assume(z3.And(z3.UGE(b, 97), z3.ULE(b, 122)))
        a = [cat(*[z if z != '?' else b for z in x]) for x in args]
        go(s, z3.BoolVal(ok), 'cargo is run although not exactly one artifact was selected', args=a, guide=False)
        return s
    return gen


def options(name, args, i, at):
    """one byte of an option's name is free: it selects only if it is spelled as documented"""
    def gen(root):
        s = Scenario(root, name)
        b = ascii1(s, 'b')
        a = [items(x) for x in args]
        o = a[i][at]
        if at == 1: s.assume(b != ord('h'), b != ord('V'))     # asks for help
        a[i][at] = b
        go(s, b == o, 'cargo is run although nothing was selected', args=a, guide=False)
        return s
    return gen


def scenarios(tier):
    R = dict(oracle=refused)
    q = [
        dict(name='hash', gen=hash_('ha'), reach=['run', 'refused'], **R),
        dict(name='hash-short', gen=hash_('hs', cut=1), reach=['refused'], **R),
        dict(name='hash-long', gen=hash_('hl', more='0'), reach=['refused'], **R),
        dict(name='hash-env', gen=hash_('he', key='1'), reach=['run', 'refused'], **R),
        dict(name='env-value', gen=env('ev'), reach=['run', 'refused'], **R),
        dict(name='env-name', gen=env('en', ENVKEY.lower(), where='name'), reach=['refused'], **R),
        dict(name='env-name2', gen=env('e2', ENVKEY.replace('UNS', 'UNSU'), where='name'), reach=['refused'], **R),
        dict(name='env-name3', gen=env('e3', ENVKEY + 'S', where='name'), reach=['refused'], **R),
        dict(name='env-after', gen=env('ea', ENVVAL, '', 'around'), reach=['refused'], **R),
        dict(name='env-before', gen=env('eb', '', ENVVAL, 'around'), reach=['refused'], **R),
        dict(name='env-case', gen=env('ec', where='case'), reach=['run', 'refused'], **R),
        dict(name='env-list', gen=env('el', where='list'), reach=['run', 'refused'], **R),
        dict(name='env-good', gen=env('eg', good=True, where='list'), reach=['run'], **R),
    ]
    q += [dict(name='rustc-' + k, gen=vv('v' + k, k), reach=['run' if k == 'release' else 'refused'], **R) for k in ('unknown', 'none', 'short', 'elsewhere', 'release')]
    q += [dict(name='rustc-fails', gen=fails('rf'), reach=['refused'], **R)]
    S = lambda n, ok, *a: dict(name='select-' + n, gen=selection('s' + n, a, ok), reach=['run' if ok else 'refused'], **R)
    q += [S('none', False, '--target', THUMB), S('both', False, '--example', 'a?', '--bin', 'b'), S('both2', False, '--bin=a?', '--example=a?'), S('start', False, 'ap?'), S('two-bins', False, '--bin', 'a?', '--bin', 'c'),
          S('two-examples', False, '--example', 'a?', '--example', 'a?'), S('bin', True, '--bin', 'a?'), S('example', True, '--example', 'a?'), S('novalue', False, '--example'), S('features', False, '--features', 'a?', '--all-features')]
    q += [dict(name='option-%s-%d' % (o[2:], at), gen=options('o%s%d' % (o[2:], at), [o, 'app'], 0, at), reach=['run', 'refused'], **R) for o in ('--example', '--bin') for at in (1, 2, len(o) - 1)]
    return q


BOUNDS = 'any ASCII byte at any one place of the commit hash and of the value of the variable (any non-zero byte before or after the value), seven other values, three other names; five other answers of rustc and any exit code; ten combinations of selection options and one free byte in their names'
