from c14 import *
from c14 import reports as R_


def wide(name, old, pre, post, n, crate=EX):
    """any character of n bytes within the argument `old`"""
    def gen(root):
        from c10 import utf8
        s = Scenario(root, name)
        b = [s.var('b%d' % i, 8) for i in range(n)]
        s.assume(utf8(b))
        a = put(BASE, 1, crate)
        wrap(s, put(a, a.index(old), cat(*([pre] + b + [post]))))
        return s
    return gen


DIR, RLIB, EXF = [x for x in BASE if x.endswith('/deps') and not x.startswith('dep')][0], [x for x in BASE if 'noprelude' in x][0], 'extra-filename=-1234abcd5678ef90'


def scenarios(tier):
    q = [
        dict(name='extern-byte', gen=externs('xb', 'noprelude:compiler_builtins', '/p/lib=cb.rlib', 1), oracle=R_, reach=['extern']),
        dict(name='extern-plain', gen=externs('xp', 'compiler_builtin', '=/p/libcb.rlib', 1), oracle=R_, reach=['extern']),
        dict(name='extern-prefix', gen=externs('xn', 'noprelude', 'compiler_builtins=/p/libcb.rlib', 1), oracle=R_, reach=['extern']),
        dict(name='extern-path', gen=externs('xh', 'compiler_builtins=', '.rlib', 2), oracle=R_, reach=['extern']),
        dict(name='extern-lead', gen=externs('xl', '', 'compiler_builtins=/p/libcb.rlib', 2), oracle=R_, reach=['extern']),
        dict(name='extern-middle', gen=externs('xm', 'noprelude:compiler', 'builtins=/p/libcb.rlib', 1), oracle=R_, reach=['extern']),
        dict(name='extern-options', gen=externs('xq', 'priv,noprelude', 'compiler_builtins=/p/libcb.rlib', 1), oracle=R_, reach=['extern']),
        dict(name='extern-options-2', gen=externs('xr', 'noprelude', 'nounused:compiler_builtins=/p/libcb.rlib', 1), oracle=R_, reach=['extern']),
        dict(name='extern-options-3', gen=externs('xs', 'priv:compiler_builtins=/p:', 'libcb.rlib', 1), oracle=R_, reach=['extern']),
        dict(name='extern-options-4', gen=externs('xt', 'force,nounuse', ',priv:compiler_builtins=/p:libcb.rlib', 1), oracle=R_, reach=['extern']),
        dict(name='extern-none', gen=externs('xo', 'compiler_builtins', '', 1), oracle=R_, reach=['extern']),
        dict(name='extern-builtins', gen=externs('xc', 'compiler_builtins=', 'x', 1, crate=EX), oracle=R_, reach=['builtins']),
        dict(name='crate', gen=mutated('cr', 1, 3, crate=EX), oracle=R_, reach=['builtins']),
        dict(name='crate-end', gen=mutated('ce', 1, -1, crate=EX), oracle=R_, reach=['builtins']),
        dict(name='out-dir', gen=mutated('od', '/p/target/thumbv7m-none-eabi/release/deps', 2, crate=EX), oracle=R_, reach=['builtins']),
        dict(name='out-dir-end', gen=mutated('oe', '/p/target/thumbv7m-none-eabi/release/deps', -1, crate=EX), oracle=R_, reach=['builtins']),
    ]
    for n in (2, 3, 4):
        q += [dict(name='wide-dir-end-%d' % n, gen=wide('wd%d' % n, DIR, '/p/cach', '', n), oracle=R_, reach=['builtins']),
              dict(name='wide-rlib-end-%d' % n, gen=wide('wr%d' % n, RLIB, 'noprelude:compiler_builtins=/p/x', '', n, 'alloc'), oracle=R_, reach=['extern'])]
    q += [dict(name='wide-dir-start', gen=wide('ws', DIR, '', '/p/x', 2), oracle=R_, reach=['builtins']), dict(name='wide-dir', gen=wide('wm', DIR, '/p/', 's/x', 3), oracle=R_, reach=['builtins']),
          dict(name='wide-rlib', gen=wide('wp', RLIB, 'noprelude:compiler_builtins=/p/c', 'h/x.rlib', 2, 'alloc'), oracle=R_, reach=['extern']),
          dict(name='wide-extra', gen=wide('we', EXF, 'extra-filename=-', '', 2), oracle=R_, reach=['builtins'])]
    q += [dict(name='extra-' + k, gen=spelling('e' + k, k), oracle=R_, reach=['builtins']) for k in ('joined', 'separate', 'first', 'last', 'none', 'odd', 'free', 'freejoined', 'empty', 'novalue')]
    q += [dict(name='missing-%s-%d' % (o[2:], cut), gen=missing('m%s%d' % (o[2:], cut), o, at, cut=cut), oracle=R_, reach=(['incomplete'] if cut or o == '--out-dir' else ['extern']) + ([] if cut else ['builtins']))
          for o, at in (('--crate-name', 3), ('--out-dir', -1)) for cut in (False, True)]
    q += [dict(name='missing-extern', gen=missing('me', '--extern', 4, cut=True), oracle=R_, reach=['incomplete', 'builtins'])]
    q += [dict(name='kind-' + k, gen=kind('k-' + k, k), oracle=R_) for k in KINDS]
    q += [dict(name='crowd', gen=crowd('cr'), oracle=R_, reach=['extern', 'other'][:1]), dict(name='crowd-builtins', gen=crowd('cs', EX), oracle=R_, reach=['builtins'])]
    q += [dict(name='option-extern', gen=mutated('oe', '--extern', 3), oracle=R_, reach=['extern'])]
    return q


BOUNDS = '15 other command lines (binaries, build scripts, macros, probes); nine --extern arguments, of which three vary; a command line of Cargo with up to three --extern arguments and up to two free ASCII bytes in the prefix, name or path of one; any character outside ASCII at the start, the middle or the end of the output directory, an rlib path or the extra filename; any ASCII byte in the crate name and output directory (two places each); ten spellings of the extra-filename option with four texts or two free bytes; every mandatory option misspelled in one byte or without its value'
