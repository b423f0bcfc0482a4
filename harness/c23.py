"""What the result rests on without being known is announced on stderr (C23)."""
from c06 import pick, opt, OTHER32, LINUX, B8
from c12 import Hidden
from prog import *
from rec import *
from runner import decide
import thumb as Tb, z3

T, F = z3.BoolVal(True), z3.BoolVal(False)
M7, M6 = 'thumbv7m-none-eabi', 'thumbv6m-none-eabi'


def lines(c):
    out, cur = [], []
    for x in c.rec.err:
        if isinstance(x, int) and x == 10:
            out.append(cur); cur = []
        else: cur.append(x)
    return out + ([cur] if cur else [])


def word(x): return isinstance(x, int) and (48 <= x <= 57 or 65 <= x <= 90 or 97 <= x <= 122 or x in b'_.$')


def mentions(c, line, name):
    b = name.encode()
    for i in range(len(line) - len(b) + 1):
        sl = line[i:i + len(b)]
        if any(isinstance(x, int) and x != y for x, y in zip(sl, b)): continue
        if (i and word(line[i - 1])) or (i + len(b) < len(line) and word(line[i + len(b)])): continue
        sy = [x == y for x, y in zip(sl, b) if not isinstance(x, int)]
        if not sy or decide(c, z3.And(sy)): return True
    return False


def oracle(c):
    """truth['say'] = {name: [conditions, each of which is to be announced]}; truth['any'] = condition for any message at all"""
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        return
    ls = [l for l in lines(c) if l and l[0] != 32]      # without the lines of Cargo
    some = False
    for name, conds in c.T['say'].items():
        n = sum(mentions(c, l, name) for l in ls)
        some = some or n > 0
        cnt = z3.Sum([z3.If(x, 1, 0) for x in conds]) if conds else z3.IntVal(0)
        if n == 0: c.require(z3.Not(z3.Or(conds)) if conds else T, 'nothing is said about %s' % name)
        else: c.require(z3.And(cnt > 0), '%s is mentioned without reason' % name)
        c.require(cnt <= n, 'not everything that is unknown about %s is announced' % name)
    if 'any' in c.T: c.require(c.T['any'] == z3.BoolVal(bool(ls)), 'messages although everything is known' if ls else 'no message')
    c.tag = 'said' if some else 'silent'


ASM = 'call void asm sideeffect "nop", "~{memory}"() #1'


def kinds(name, target, free, n=3):
    """each function: with inline assembly, with a recorded usage, with a type, or without"""
    N = ['alpha', 'beta_1', 'gamma']
    def gen(root):
        s = Scenario(root, name)
        th = thumb_target(target)
        p = Program(target)
        say = {}
        for i in range(n):
            v = lambda k, d: s.var(k + str(i), 1) if k in free else z3.BitVecVal(d, 1)
            a, r, t, w = v('a', 0), v('r', 1), v('t', 1), v('w', 0)
            f = p.fn(N[i], stack=0 if th else 8 * i + 8, ir=[])
            if 't' in free:
                f.ir, f.sig = None, None
                # a declaration of it, or of another function
                p.extra_ir.append(cat('declare void @', z3.If(t == 1, B8(ord(N[i][0])), B8(ord('x'))), N[i][1:], '(i32)'))
            else: f.ir = [cat(opt(a, 'call void asm', 'store i32 as'), pick(w, [' sideeffect "nop", "~{memory}"()', ' volatile "", ""()']), ' #1')]
            f.rec_name = cat(z3.If(r == 1, B8(ord(N[i][0])), B8(ord('x'))), N[i][1:])
            say[N[i]] = [a == 1] + ([] if th else [r == 0]) + [t == 0]
        m = p.fn('main', stack=0 if th else 8, ir=['call void @%s()' % N[0]] if 't' not in free else [])
        say['main'] = [F]
        d = Fn('dead', stack=None, ir=[ASM], sig=('void', ['i32']))
        p.dead.append(d)
        say['dead'] = [F]
        p.fill(s)
        s.truth['say'] = say
        s.truth['any'] = z3.Or([x for l in say.values() for x in l])
        return s
    return gen


def context(name, target):
    """what stands next to the inline assembly, and which function reaches which, does not matter"""
    def gen(root):
        s = Scenario(root, name)
        th = thumb_target(target)
        p = Program(target)
        L = ['call void asm sideeffect "nop", ""()', 'call void @beta_1()', 'call void %p(i64 7)', 'store i32 0, ptr %q, align 4', '%r = call i8 @llvm.abs.i8(i8 %1)', '%r = invoke i8 @beta_1() to label %b unwind label %c', 'call void @alpha()', 'ret void']
        n = max(map(len, L)) + 2
        ln = lambda v: pick(v, [x + ' ;' + 'x' * (n - len(x) - 2) for x in L])
        say = {}
        for x in ('alpha', 'beta_1', 'gamma'):
            v = [s.var(x[0] + str(i), 3) for i in range(2)] if x != 'beta_1' else [s.var('b', 1)]
            p.fn(x, stack=0 if th else 8, ir=[ln(y) for y in v] if x != 'beta_1' else [cat(opt(v[0], 'call void asm ""()', 'call void @alpha()'), ' #1')])
            say[x] = [z3.Or([y == 0 for y in v]) if x != 'beta_1' else v[0] == 1]
            s.assume(z3.Or([y == 0 for y in v] + [z3.And([z3.ULE(y, 3) for y in v])]) if x != 'beta_1' else T)
        p.fn('omega', stack=0 if th else 8, ir=[ASM], sig=('void', ['i64']))
        say['omega'] = [T]
        p.fill(s)
        s.truth['say'] = say
        return s
    return gen


def intrinsics(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        a, b = s.var('a', 2), s.var('b', 1)
        L = ['llvm.umax.i32', 'llvm.usub.sat.i32', 'llvm.bswap.i32', 'llvm.dbg.value']
        p.fn('f', stack=8, ir=[cat(pick(a, ['call i32 @%s(i32 %%0)' % x for x in L]), ' #1')])
        p.fn('g', stack=8, ir=[cat(opt(b, 'call ', ';    '), 'i32 @llvm.abs.i32(i32 %0, i1 true)'), cat(opt(b, 'call ', ';    '), 'i32 @llvm.abs.i32(i32 %1, i1 true)')])
        d = Fn('dead', stack=8, ir=['call i32 @llvm.ctlz.i32(i32 %0, i1 false)'], sig=('void', []))
        p.dead.append(d)
        p.fill(s)
        s.truth['say'] = {x: [a == i] for i, x in enumerate(L[:3])}
        s.truth['say'].update({L[3]: [F], 'llvm.abs.i32': [b == 1], 'llvm.ctlz.i32': [F], 'f': [F], 'g': [F]})
        s.truth['any'] = z3.Or(a != 3, b == 1)
        return s
    return gen


def machine(name, target):
    """without a recorded usage: the machine code tells it or not; indirect branches in functions without IR"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k, q, w = s.var('k', 2), s.var('q', 1), s.var('w', 1)
        b = lambda v, *o: [z3.simplify(z3.If(v == 0, B8(o[0][i]), z3.If(v == 1, B8(o[1][i]), z3.If(v == 2, B8(o[2][i]), B8(o[3][i]))))) for i in range(2)]
        # push {r4, lr} / mov sp, r1 / nop / push; with an internal branch or not
        mv = [0x8d, 0x46]
        nop = [0xc0, 0x46]
        br = [z3.If(q == 1, B8(0xff), B8(0xc0)), z3.If(q == 1, B8(0xd0), B8(0x46))]     # beq . / nop
        # beq back onto itself
        br = [z3.If(q == 1, B8(0xfe), B8(0xc0)), z3.If(q == 1, B8(0xd0), B8(0x46))]
        code = b(k, [0x10, 0xb5], nop, nop, nop) + br + nop + Tb.BX_LR
        f = p.fn('alpha', code=code, sig=('void', []), ir=None, addr=p.base + 0x40)
        f.declared = True
        g = p.fn('beta_1', code=[z3.If(w == 1, B8(0x98), B8(0xc0)), z3.If(w == 1, B8(0x47), B8(0x46))] + Tb.BX_LR, sig=('void', []), ir=None, addr=p.base + 0x80)
        g.declared = True
        h = p.fn('gamma', code=[0x98, 0x47] + Tb.BX_LR, stack=0, ir=[], addr=p.base + 0xc0)
        p.fill(s)
        s.assume(z3.ULE(k, 1))
        s.truth['say'] = {'alpha': [z3.And(k == 0, q == 1)], 'beta_1': [w == 1], 'gamma': [F]}
        s.truth['any'] = z3.Or(z3.And(k == 0, q == 1), w == 1)
        return s
    return gen


def override(name, target):
    """the machine code of a function with inline assembly allocates more than recorded"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        n, a = s.var('n', 2), s.var('a', 1)
        f = p.fn('alpha', code=[z3.If(a == 1, B8(0x30), B8(0x10)), 0xb5] + [0xc0, 0x46, 0x70, 0x47], stack=8, ir=[ASM], addr=p.base + 0x40)
        p.fill(s)
        # the assembly itself is announced, and the correction if there is one
        s.truth['say'] = {'alpha': [T, a == 1]}
        return s
    return gen


def override_any(name, target):
    """any recorded size against any size allocated by the machine code, with inline assembly"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        n, m = s.var('n', 7), s.var('m', 5)
        s.assume(m != 0)
        p.fn('alpha', code=[z3.Concat(z3.BitVecVal(4, 3), m), 0xb0, 0x70, 0x47], stack=n, ir=[ASM], addr=p.base + 0x40)
        p.fn('beta_1', code=[0x88, 0xb0, 0x70, 0x47], stack=32, ir=['call void @alpha()'], addr=p.base + 0x80)
        p.fill(s)
        s.truth['say'] = {'alpha': [T, n != z3.ZeroExt(2, m) * 4], 'beta_1': [F]}
        return s
    return gen


def start(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k = s.var('k', 8)
        s.assume(z3.UGE(k, 97), z3.ULE(k, 122))
        p.fn('f1a', stack=8, ir=[])
        p.fn('f1b', stack=8, ir=['call void @f1a()'])
        p.fill(s)
        s.args.append(cat('f1', k))
        s.truth['say'] = {}
        s.truth['any'] = z3.And(k != 97, k != 98)
        return s
    return gen


def ambiguous(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        d = s.var('d', 8)
        s.assume(z3.Or(z3.And(z3.UGE(d, 48), z3.ULE(d, 57)), z3.And(z3.UGE(d, 97), z3.ULE(d, 102))))
        q = s.var('q', 1)
        h = '17h0123456789abcde'
        p.fn(cat('_ZN3app3fo', z3.If(q == 1, B8(111), B8(98)), h, '1E'), stack=8, ir=[])
        p.fn('_ZN3app3foo' + h + '2E', stack=16, ir=[])
        p.fill(s)
        s.args.append(items('app::foo'))
        s.truth['say'] = {'_ZN3app3foo' + h + '1E': [q == 1], '_ZN3app3foo' + h + '2E': [q == 1]}
        s.truth['any'] = q == 1
        return s
    return gen


def many(name, target, n):
    """up to n functions match the start point"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        q = [s.var('q%d' % i, 1) for i in range(n)]
        N = ['_ZN3app3foo17h0123456789abcde%dE' % i for i in range(n)]
        for i in range(n):
            p.fn(cat('_ZN3app3fo', z3.If(q[i] == 1, B8(111), B8(98)), N[i][11:]), stack=8 * i + 8, ir=[])
        p.fill(s)
        s.args.append(items('app::foo'))
        cnt = z3.Sum([z3.If(x == 1, 1, 0) for x in q])
        s.truth['say'] = {N[i]: [z3.And(q[i] == 1, cnt > 1)] for i in range(n)}
        s.truth['any'] = cnt != 1
        return s
    return gen


def crowd(name, target, n=16):
    """many functions, of which some are announced"""
    def gen(root):
        s = Scenario(root, name)
        th = thumb_target(target)
        p = Program(target)
        say = {}
        A = {i: s.var('a%d' % i, 1) for i in (1, 7, n - 1)}
        R = {} if th else {i: s.var('r%d' % i, 1) for i in (0, 8, n - 2)}
        Y = {i: s.var('t%d' % i, 1) for i in (3, n - 4)}
        for i in range(n):
            nm = 'fn%02d_x' % i
            f = p.fn(nm, stack=0 if th else 8 * i + 8, ir=['call void @fn%02d_x()' % (i - 1)] if i else [], sig=('void', []))
            if i in A: f.ir.append(cat(opt(A[i], 'call', ';all'), ' void asm sideeffect "nop", ""() #1'))
            if i in R: f.rec_name = cat(z3.If(R[i] == 1, B8(102), B8(120)), nm[1:])
            if i in Y:
                f.ir, f.sig = None, None
                p.extra_ir.append(cat('declare void @', z3.If(Y[i] == 1, B8(102), B8(120)), nm[1:], '()'))
                if i + 1 < n: pass
            say[nm] = ([A[i] == 1] if i in A else []) + ([R[i] == 0] if i in R else []) + ([Y[i] == 0] if i in Y else [])
        # a function without IR makes no calls here
        p.fill(s)
        s.truth['say'] = say
        s.truth['any'] = z3.Or([x for l in say.values() for x in l])
        return s
    return gen


def scenarios(tier):
    R = dict(oracle=oracle)
    B = ['said', 'silent']
    return [
        dict(name='asm', gen=kinds('as', OTHER32, 'aw'), reach=B, **R),
        dict(name='usage', gen=kinds('us', LINUX, 'r'), reach=B, **R),
        dict(name='types', gen=kinds('ty', OTHER32, 't'), reach=B, **R),
        dict(name='all', gen=kinds('al', OTHER32, 'ar', 2), reach=B, **R),
        dict(name='asm-thumb', gen=kinds('at', M7, 'a'), reach=B, **R),
        dict(name='types-thumb', gen=kinds('tt', M6, 't'), reach=B, **R),
        dict(name='context', gen=context('cx', LINUX), reach=['said'], **R),
        dict(name='context-thumb', gen=context('ct', M7), reach=['said'], **R),
        dict(name='intrinsics', gen=intrinsics('in', LINUX), reach=B, **R),
        dict(name='machine-v7', gen=machine('m7', M7), reach=B, **R),
        dict(name='machine-v6', gen=machine('m6', M6), reach=B, **R),
        dict(name='override', gen=override('ov', M7), reach=['said'], **R),
        dict(name='override-any', gen=override_any('oa', M7), reach=['said'], **R),
        dict(name='override-any-v6', gen=override_any('ob', M6), reach=['said'], **R),
        dict(name='many', gen=many('mm', OTHER32, 5), reach=B, **R),
        dict(name='crowd', gen=crowd('cw', OTHER32), reach=B, **R),
        dict(name='crowd-thumb', gen=crowd('cx', M7), reach=B, **R),
        dict(name='start', gen=start('st', OTHER32), reach=['silent'], **R),
        dict(name='ambiguous', gen=ambiguous('am', LINUX), reach=B, **R),
    ]


BOUNDS = 'three functions, each with or without inline assembly, recorded usage and type information; up to two statements of eight kinds around the inline assembly; four intrinsics; one function with and one without indirect branches; any recorded size below 128 against any allocation below 128 bytes; start points of one free letter and with none to five matches; one function that is not linked in; sixteen functions of which eight may be announced'
