from c03 import *
import isa


def local_oracle(c):
    """truth['local'][f] = list of (condition, value | None = unknown); exactly one applies"""
    acc = c.T.get('accept', z3.BoolVal(True))
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]), acc)
        return
    g = c.graph()
    for name, alts in c.T['local'].items():
        ns = [n for x in (name if isinstance(name, tuple) else (name,)) for n in g.by_name(x)]
        if len(ns) != 1:
            c.fail('%d nodes for %s' % (len(ns), name), acc)
            continue
        name = '/'.join(name) if isinstance(name, tuple) else name
        l = ns[0].local
        for cond, v in alts:
            if v is None: c.require(z3.Implies(z3.And(acc, cond), z3.BoolVal(l is None)), 'local usage of %s is a number although it is not determined' % name)
            elif l is None: c.fail('local usage of %s is unknown' % name, z3.And(acc, cond))
            else: c.require(z3.Implies(z3.And(acc, cond), l == v), 'local usage of %s is wrong' % name)
    c.tag = 'known' if ns and ns[0].local is not None else 'unknown'


def total(fx):
    """alternatives of the sum of independent effects [(cond, n|None)]"""
    unk = z3.Or([c for c, n in fx if n is None] + [z3.BoolVal(False)])
    z = z3.BitVecVal(0, 64)
    s = z
    for c, n in fx:
        if n is not None: s = s + z3.If(c, n, z)
    return [(unk, None), (z3.Not(unk), z3.simplify(s))]


def setup(s, target, code, fx, brs=(), accept=None, **fnkw):
    p = Program(target)
    A = p.base + 0x100
    p.fn('b', code=T.BX_LR, addr=p.base)
    f = p.fn('c', code=code, addr=A, **fnkw)
    p.fn('e', code=T.BX_LR, addr=A + 0x800)
    p.fill(s)
    # no branches at all: those are C03's
    s.truth['local'] = {'c': total(fx)}
    s.truth['accept'] = z3.And([z3.Not(c) for c, _, _ in brs] + ([accept] if accept is not None else []))
    return p, A


def l16(target, name):
    v7 = 'v6m' not in target
    def gen(root):
        s = Scenario(root, name)
        h = s.var('h', 16)
        s.assume(isa.valid16(h, v7))
        s.assume(h != 0xb080)
        brs = isa.branch16(h, 0, v7)
        for c, _, _ in brs: s.assume(z3.Not(c))
        # MOV SP, Rm sets SP rather than subtracting from it
        acc = z3.Not(isa.pat(h, '010001101xxxx101'))
        setup(s, target, hwords(h, 0xb402) + T.BX_LR, isa.sp16(h) + [(isa.tables16(h), None)] + [(z3.BoolVal(True), z3.BitVecVal(4, 64))], accept=acc)
        return s
    return gen


def cares32(h, k):
    f = lambda *ps: z3.And(isa.pat(h, ps[0]), isa.pat(k, ps[1]) if len(ps) > 1 else z3.BoolVal(True))
    rd = isa.bits(k, 11, 8)
    no13 = z3.And(isa.bits(h, 3, 0) != 13, isa.bits(k, 15, 12) != 13, rd != 13, isa.bits(k, 3, 0) != 13)
    zero = [f('1110100010111101', 'xx0xxxxxxxxxxxxx'), f('11110x01000x1101', '0xxx1101xxxxxxxx'), f('11110x1000001101', '0xxxxxxxxxxxxxxx'),
            z3.And(f('11110x01101x1101', '0xxxxxxxxxxxxxxx'), rd != 13), z3.And(f('11110x1010101101', '0xxxxxxxxxxxxxxx'), rd != 13),
            z3.And(isa.pat(h, '1110100100001101'), isa.pat(k, '0x0xxxxxxxxxxxxx')),
            f('1111100011001101'), z3.And(f('1111100011011101'), isa.bits(k, 15, 12) != 13), f('1111100010001101'), f('1111100010101101'), f('1111100010011101'),
            f('1111100001001101', 'xxxx1100xxxxxxxx'), f('1111100001001101', 'xxxx1111xxxxxxxx'), f('1111100001001101', 'xxxx1011xxxxxxxx'),
            f('1110110010111101', 'xxxx101xxxxxxxxx'), f('111011010x001101', 'xxxx101xxxxxxxxx'), f('1110110110001101', 'xxxx101xxxxxxxxx'), f('1110110110011101', 'xxxx101xxxxxxxxx'),
            f('1110100101001101'), f('1110100111001101'), f('1110100111101101')]
    return z3.Or([no13] + zero + [c for c, _ in isa.sp32(h, k)])


def l32(target, name):
    def gen(root):
        s = Scenario(root, name)
        h, k = s.var('h', 16), s.var('k', 16)
        s.assume(isa.is32(h))
        s.assume(sp_zero(h, k))
        brs = isa.branch32(h, k, 0, True)
        for c, _, _ in brs: s.assume(z3.Not(c))
        s.assume(cares32(h, k))
        setup(s, target, hwords(h, k) + hwords(0xb402) + T.BX_LR, isa.sp32(h, k) + [(isa.tables32(h, k), None)] + [(z3.BoolVal(True), z3.BitVecVal(4, 64))])
        return s
    return gen


def bv(v, n): return z3.ZeroExt(16 - v.size(), v)


def chain(target, name, **kw):
    """one function that uses every kind of allocation, all operands symbolic"""
    v7 = 'v6m' not in target
    def gen(root):
        s = Scenario(root, name)
        H = lambda base, v: z3.BitVecVal(base, 16) | z3.ZeroExt(16 - v.size(), v)
        push, sub = H(0xb400, s.var('push', 9)), H(0xb080, s.var('sub', 7))
        ops = [(push,), (sub,)]
        if v7:
            ops.append((0xe92d, H(0, s.var('stm', 13)) | z3.BitVecVal(0x4000, 16)))
            ops.append((H(0xf1ad, z3.Concat(s.var('i', 1), z3.BitVecVal(0, 10))), z3.Concat(z3.BitVecVal(0, 1), s.var('i3', 3), z3.BitVecVal(13, 4), s.var('i8', 8))))
            ops.append((0xed2d, H(0x8b00, s.var('vp', 8))))
            ops.append((0xf84d, H(0xbd00, s.var('st', 8))))
        ops.append((H(0xb080, s.var('sub2', 7)),))
        fx, code = [], []
        for o in ops:
            o = [x if not isinstance(x, int) else z3.BitVecVal(x, 16) for x in o]
            o = [z3.simplify(x) for x in o]
            code += hwords(*o)
            e = isa.sp16(o[0]) if len(o) == 1 else isa.sp32(*o)
            fx += e
            for cnd, n in e:
                if n is not None: s.assume(z3.Not(z3.And(cnd, n == 0)))
        s.assume(z3.Extract(8, 0, push) != 0)
        p, A = setup(s, target, code + T.BX_LR, fx, **kw)
        return s
    return gen


def override(name, target, asm, rec_bits, fname='c'):
    """functions with a compiler-recorded size: inline assembly and outlined functions"""
    def gen(root):
        s = Scenario(root, name)
        H = lambda base, v: z3.BitVecVal(base, 16) | z3.ZeroExt(16 - v.size(), v)
        sub = s.var('sub', 7)
        s.assume(sub != 0)
        code = hwords(z3.simplify(H(0xb080, sub)), 0xb500) + T.BX_LR
        p = Program(target)
        st = s.var('rec', rec_bits)
        ir = ['call void asm sideeffect "sub sp, #4", "~{memory}"() #1, !srcloc !7'] if asm else []
        p.fn(fname, code=code, ir=ir if not fname.startswith('OUT') else None, stack=st)
        p.fn('z', code=T.BX_LR, ir=[], stack=0)
        p.fill(s)
        mc = z3.ZeroExt(57, sub) * 4 + 4
        r = z3.ZeroExt(64 - rec_bits, st)
        s.truth['local'] = {fname: [(z3.BoolVal(True), mc)], 'z': [(z3.BoolVal(True), z3.BitVecVal(0, 64))]}
        # a recorded zero although SP is modified is a contradiction the tool reports by failing;
        # an outlined function is recorded as 0 or correctly
        s.truth['accept'] = z3.Or(r == 0, r == mc) if fname.startswith('OUT') else z3.BoolVal(True)
        return s
    return gen


def internal(target, name):
    """SP is modified on both sides of an instruction that may branch within the function"""
    v7 = 'v6m' not in target
    def gen(root):
        s = Scenario(root, name)
        h = s.var('h', 16)
        s.assume(isa.valid16(h, v7))
        A = BASE_ + 0x100
        code = hwords(0xb403, 0xbf00, h, 0xbf00, 0xb402, 0x46c0, 0x46c0) + T.BX_LR
        size = len(code)
        brs = isa.branch16(h, A + 4, v7)
        br = z3.Or([c for c, _, _ in brs])
        inside = lambda t: z3.And(z3.UGE(t, isa.B(A, 32)), z3.ULT(t, isa.B(A + size, 32)))
        internal = z3.Or([z3.And(c, inside(t)) for c, t, _ in brs])
        s.assume(z3.Or(internal, z3.Not(br)))
        s.assume(h != 0xb080)
        fx = [(z3.Or(internal, isa.tables16(h)), None), (z3.BoolVal(True), z3.BitVecVal(12, 64))] + isa.sp16(h)
        setup(s, target, code, fx, accept=z3.Not(isa.pat(h, '010001101xxxx101')))
        return s
    return gen


def outlined(name, target, lens):
    """outlined functions of any number; their recorded size of zero is not taken"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        p.fn('z', code=T.BX_LR, ir=[], stack=0)
        n = s.var('n', 7)
        s.assume(n != 0)
        names = []
        d = s.var('d', 8)
        s.assume(z3.UGE(d, 48), z3.ULE(d, 57))
        for k in lens:
            ds = [d] + [57 - (i * 3 + k) % 10 for i in range(k - 1)]
            p.fn(cat('OUTLINED_FUNCTION_', *ds), code=hwords(z3.simplify(z3.BitVecVal(0xb080, 16) | z3.ZeroExt(9, n))) + T.BX_LR, stack=0)
        p.fill(s)
        s.truth['n'] = len(lens)
        s.truth['size'] = z3.ZeroExt(57, n) * 4
        return s
    return gen


def outlined_oracle(c):
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        return
    ns = [n for n in c.graph().nodes.values() if show(n.name).startswith('OUTLINED')]
    if len(ns) != c.T['n']: c.fail('%d outlined functions' % len(ns))
    for n in ns:
        if n.local is None: c.fail('usage of %s is unknown' % show(n.name))
        else: c.require(n.local == c.T['size'], 'usage of %s is wrong' % show(n.name))
    c.tag = 'known'


def sections(target, name):
    """functions outside of .text: in a section before it and in RAM"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        n, m = s.var('n', 7), s.var('m', 7)
        s.assume(n != 0, m != 0)
        p.base = 0x08000400
        p.sections = [('.init', 0x08000200, 0x20, 1, 6), ('.ramfunc', 0x20000000, 0x20, 1, 7)]
        sub = lambda v: z3.simplify(z3.BitVecVal(0xb080, 16) | z3.ZeroExt(9, v))
        for f, a, code, sect, size in (('i0', 0x08000200, hwords(sub(n)) + T.BX_LR, '.init', 4), ('m0', 0x08000400, T.hw(0xb510) + T.BX_LR, None, 4),
                                       ('r0', 0x20000000, T.hw(0xb530) + hwords(sub(m)) + T.BX_LR, '.ramfunc', 6), ('r1', 0x20000010, hwords(sub(n)) + hwords(sub(m)) + T.BX_LR, '.ramfunc', 0)):
            p.fn(f, code=code, addr=a, size=size).sect = sect
        p.fill(s)
        b = lambda v: z3.ZeroExt(57, v) * 4
        Y = z3.BoolVal(True)
        s.truth['local'] = {'i0': [(Y, b(n))], 'm0': [(Y, z3.BitVecVal(8, 64))], 'r0': [(Y, b(m) + 12)], 'r1': [(Y, b(n) + b(m))]}
        return s
    return gen


def asm_branch(name, target):
    """a function with inline assembly, with or without an internal branch, that pushes or not, whatever was recorded for it"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        n, q, w, m = s.var('n', 7), s.var('q', 1), s.var('w', 1), s.var('m', 5)
        s.assume(m != 0)
        push = [z3.If(q == 1, z3.Concat(z3.BitVecVal(4, 3), m), z3.BitVecVal(0xc0, 8)), z3.If(q == 1, z3.BitVecVal(0xb0, 8), z3.BitVecVal(0x46, 8))]
        back = [z3.If(w == 1, z3.BitVecVal(0xfd, 8), z3.BitVecVal(0xc0, 8)), z3.If(w == 1, z3.BitVecVal(0xd1, 8), z3.BitVecVal(0x46, 8))]     # bne to the start
        p.fn('c', code=push + back + T.BX_LR, stack=n, ir=['call void asm sideeffect "nop", ""() #1'])
        p.fill(s)
        b = z3.If(q == 1, z3.ZeroExt(59, m) * 4, z3.BitVecVal(0, 64))
        r = z3.ZeroExt(57, n)
        loop = w == 1
        s.truth['local'] = {'c': [(z3.Not(loop), b), (z3.And(loop, z3.Or(q == 0, r != 0)), r), (z3.And(loop, q == 1, r == 0), None)]}
        # a size recorded for a function that does not allocate is no input that exists
        s.truth['accept'] = z3.Or(z3.Not(loop), q == 1, r == 0)
        return s
    return gen


def scenarios(tier):
    return [
        dict(name='v7-sections', gen=sections('thumbv7em-none-eabi', 's7'), oracle=local_oracle, reach=['known']),
        dict(name='v7-internal-branch', gen=internal('thumbv7em-none-eabi', 'h'), oracle=local_oracle, reach=['known', 'unknown']),
        dict(name='v6-internal-branch', gen=internal('thumbv6m-none-eabi', 'i'), oracle=local_oracle, reach=['known', 'unknown']),
        dict(name='v7-16bit', gen=l16('thumbv7m-none-eabi', 'a'), oracle=local_oracle, reach=['known']),
        dict(name='v6-16bit', gen=l16('thumbv6m-none-eabi', 'b'), oracle=local_oracle, reach=['known']),
        dict(name='v7-32bit', gen=l32('thumbv7em-none-eabihf', 'c'), oracle=local_oracle, reach=['known', 'unknown']),
        dict(name='v7-chain', gen=chain('thumbv7em-none-eabi', 'd'), oracle=local_oracle, reach=['known']),
        dict(name='v6-chain', gen=chain('thumbv6m-none-eabi', 'e'), oracle=local_oracle, reach=['known']),
        dict(name='asm-branch', gen=asm_branch('ab', 'thumbv7m-none-eabi'), oracle=local_oracle, reach=['known', 'unknown']),
        dict(name='asm-branch-v6', gen=asm_branch('ac', 'thumbv6m-none-eabi'), oracle=local_oracle, reach=['known', 'unknown']),
        dict(name='asm-override', gen=override('f', 'thumbv7m-none-eabi', True, 14), oracle=local_oracle, reach=['known']),
        dict(name='outlined-numbers', gen=outlined('on', 'thumbv7m-none-eabi', (1, 2, 3, 4, 6)), oracle=outlined_oracle, reach=['known']),
        dict(name='outlined', gen=override('g', 'thumbv7em-none-eabihf', False, 14, 'OUTLINED_FUNCTION_7'), oracle=local_oracle, reach=['known']),
    ]


BOUNDS = 'functions in sections other than .text, with any allocation of up to 508 bytes; every 16-bit and 32-bit Thumb encoding that does not branch (32-bit: those that do not name SP, and all listed forms that do), alone and in one chain of all allocating forms with every operand value; a function with inline assembly, any recorded size < 128, with or without an allocation < 128 bytes and an internal branch; outlined functions with numbers of one to six digits'
