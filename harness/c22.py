"""A fresh build is forced; the project is otherwise left alone (C22)."""
from c18 import setup, spawns, T, F, THUMB, LINUX, ENVKEY
from prog import *
from rec import *
from runner import decide
import os, z3

M = 2**64 - 1
NOW = 1_700_000_000_123_456_789


def oracle(c):
    t = c.T
    D = lambda x: decide(c, x)
    sp, cargo = spawns(c)
    root = c.sc.path('')
    rel = lambda p: os.path.relpath(os.path.normpath(os.path.join(c.sc.path(c.sc.cwd), p)), root)
    first = next((i for i, e in enumerate(c.rec.ev) if e['kind'] == 'spawn' and any(e is x for x in cargo)), None)
    for e in c.rec.ev:
        if e['kind'] == 'open-write': c.fail('%s is written to' % rel(e['path']))
    hits = [(i, e) for i, e in enumerate(c.rec.ev) if e['kind'] == 'touch' and e['ok']]
    names = sorted({rel(e['path']) for _, e in hits})
    c.tag = 'touched' if names else 'untouched'
    if t.get('refused'):
        c.require(not names, '%s is touched although nothing is analyzed' % names)
        return
    if len(cargo) != 1:
        c.fail('cargo is run %d times' % len(cargo))
        return
    have = [p for p, cd in t['there'] if D(cd)]
    for p in names:
        if p not in have: c.fail('%s is touched' % p)
    for i, e in hits:
        # a file system may round it
        c.require(e['time'] <= NOW and NOW - e['time'] < 10**6, 'a source gets a time other than the present')
        c.require(i < first, 'a source is touched after cargo was run')
    rs = [p for p in have if p.endswith('.rs') and (t['src'] is None or p.startswith(t['src']))]
    want = [[p] for p in t['prefer'] if p in have][:1] or [rs]
    if want[0]:
        c.require(len(names) == 1, '%d sources are touched' % len(names))
        if names: c.require(names[0] in want[0], '%s is touched instead of %s' % (names, want[0]))
    else: c.require(not names, '%s is touched' % names)


def project(name, files, src, args=('--bin', 'app', '--target', THUMB), cwd='proj', at='proj', order='forward', envs=(), vv=None, refused=False):
    def gen(root):
        s = Scenario(root, name)
        setup(s, args, envs=envs, vv=vv)
        del s.files['proj/src/main.rs']
        if at != 'proj': s.files[at + '/Cargo.toml'] = s.files.pop('proj/Cargo.toml')
        s.cwd, s.watch, s.dirorder = cwd, 'proj', order
        there = []
        for i, (f, sym) in enumerate(files):
            f = at + '/' + f
            s.add(f, '// x\n')
            if sym:
                v = s.var('e%d' % i, 1)
                s.lengths[f] = z3.If(v == 1, z3.BitVecVal(5, 64), z3.BitVecVal(M, 64))
                there.append((f, v == 1))
            else: there.append((f, T))
        s.truth.update(there=there, src=src and at + '/' + src, prefer=[at + '/src/main.rs', at + '/src/lib.rs'], refused=refused)
        return s
    return gen


def scenarios(tier):
    R = dict(oracle=oracle)
    S = [('src/main.rs', 1), ('src/lib.rs', 1), ('src/bin/app.rs', 1), ('src/notes.txt', 1), ('src/zz.rs', 1), ('build.rs', 0), ('tests/t.rs', 0), ('README.md', 0)]
    N = [('app.rs', 1), ('app.rs.bak', 0), ('sub/deep/x.rs', 1), ('sub/main.rsx', 0), ('zz/rs', 0), ('Cargo.lock', 0)]
    N2 = [('build.rs', 1), ('main.rs', 1), ('lib.rs', 1), ('examples/app.rs', 1), ('tests/common/mod.rs', 0), ('rustfmt.toml', 1)]
    N3 = [('build.rs', 1), ('benches/x.txt', 1), ('bin/app.RS', 1), ('Cargo.lock', 1), ('.github/x.yml', 0)]
    return [
        dict(name='no-src-build', gen=project('nb', N2, None), reach=['touched'], **R),
        dict(name='no-src-only', gen=project('no', N3, None, order='reverse'), reach=['touched', 'untouched'], **R),
        dict(name='src', gen=project('sr', S, 'src/'), reach=['touched', 'untouched'], **R),
        dict(name='src-reverse', gen=project('sv', S, 'src/', order='reverse'), reach=['touched', 'untouched'], **R),
        dict(name='no-src', gen=project('ns', N, None), reach=['touched', 'untouched'], **R),
        dict(name='no-src-reverse', gen=project('nr', N, None, order='reverse', args=('call-stack', '--example', 'app', '--target', LINUX)), reach=['touched', 'untouched'], **R),
        dict(name='subdirectory', gen=project('sd', S, 'src/', cwd='proj/tests', args=('--example', 'app', '--target', THUMB, '--all-features')), reach=['touched', 'untouched'], **R),
        dict(name='toolchain', gen=project('tc', S[:3], 'src/', vv=RUSTC_VV % ('0' * 40), refused=True), reach=['untouched'], **R),
        dict(name='selection', gen=project('se', S[:3], 'src/', args=('--bin', 'a', '--example', 'b'), refused=True), reach=['untouched'], **R),
        dict(name='no-selection', gen=project('nl', S[:3], 'src/', args=('--target', THUMB), refused=True), reach=['untouched'], **R),
    ]


BOUNDS = 'projects with and without a src directory, any subset of src/main.rs, src/lib.rs and two or three further sources present next to other files (build scripts, examples, tests, settings), both directory orders, started in the project or a subdirectory; refused runs'
