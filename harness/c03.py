from prog import *
from rec import *
import isa, thumb as T, z3

BASE_ = 0x08000400


def hwords(*hs):
    """halfwords (int or z3 16-bit) -> little-endian bytes"""
    out = []
    for h in hs:
        if isinstance(h, int): out += [h & 255, h >> 8]
        else: out += [z3.simplify(z3.Extract(7, 0, h)), z3.simplify(z3.Extract(15, 8, h))]
    return out


def edges_oracle(c):
    """truth['edges'][caller][callee] = condition under which exactly that edge must exist.
    Other functions (`free`) may have any edges.  truth['accept']: condition outside of which
    the input is not a valid program (a branch into nowhere) and a panic is fine."""
    T_ = c.T
    accept = T_.get('accept', z3.BoolVal(True))
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]), accept)
        return
    g = c.graph()
    ids = {}
    for n in g.nodes.values(): ids.setdefault(show(n.name), []).append(n.id)
    for caller, want in T_['edges'].items():
        if len(ids.get(caller, [])) != 1:
            c.fail('%d nodes for %s' % (len(ids.get(caller, [])), caller), accept)
            continue
        ci = ids[caller][0]
        out = [b for a, b in g.edges if a == ci]
        names = [show(g.nodes[b].name) for b in out]
        for callee, cond in want.items():
            k = names.count(callee)
            if k > 1: c.fail('edge %s -> %s is repeated' % (caller, callee), accept)
            elif k == 1: c.require(z3.Implies(accept, cond), 'edge %s -> %s although nothing branches there' % (caller, callee))
            else: c.require(z3.Implies(accept, z3.Not(cond)), 'edge %s -> %s is missing' % (caller, callee))
        for x in names:
            if x not in want and x not in T_.get('ignore', ()): c.fail('unexpected edge %s -> %s' % (caller, x), accept)
    c.tag = 'edges'


def targets_program(s, target, code, targets, size=None, big=0, base=None, caller_addr=None, accept=None, brs=(), fixed=(), ir=None, sig=None):
    """caller `c` with the given code at caller_addr; functions t<i> at the given offsets from it.
    brs: (condition, target, kind) of every possible branch."""
    p = Program(target)
    if base: p.base = base
    A = caller_addr or p.base
    size = size or len(code)
    fns = [('c', A, code, size)] + [('t%d' % i, A + o, [] if (big and abs(o) > 0x2000) else T.BX_LR, 2) for i, o in enumerate(targets)]
    for n, a, cd, sz in sorted(fns, key=lambda x: x[1]):
        p.fn(n, code=cd, size=sz, addr=a, ir=ir if n == 'c' else None)
    p.text_size = big
    p.fill(s)
    want = {}
    hit_any = []
    for i, o in enumerate(targets):
        a = isa.B(A + o, 32)
        want['t%d' % i] = z3.Or([z3.And(cnd, t == a) for cnd, t, k in brs] + [z3.BoolVal('t%d' % i in fixed)])
        hit_any += [(i, a)]
    want['c'] = z3.Or([z3.BoolVal(False)] + [z3.And(cnd, t == isa.B(A, 32)) for cnd, t, k in brs if k == 'bl'])
    inside = lambda t: z3.And(z3.UGE(t, isa.B(A, 32)), z3.ULT(t, isa.B(A + size, 32)))
    good = []
    for cnd, t, k in brs:
        ok = [t == a for i, a in hit_any]
        ok.append(t == isa.B(A, 32))
        if k == 'b': ok.append(inside(t))
        good.append(z3.Implies(cnd, z3.Or(ok)))
    s.truth['edges'] = {'c': want}
    s.truth['accept'] = z3.And(good + ([accept] if accept is not None else []))
    s.truth['ignore'] = ('?',)
    return p


def one16(target, name, after='bl'):
    v7 = 'v6m' not in target
    def gen(root):
        s = Scenario(root, name)
        h = s.var('h', 16)
        A = BASE_ + 0x900
        code = hwords(h) + T.bl(A + 2, A + 0x40) + T.BX_LR
        ofs = [0x40, 8, 12, -4, -12, 0xfe, 0x102, -0xfc, -0xfe, 0x200, -0x200, 0x802, 0x7fe, -0x7fc, -0x7fe]
        s.assume(isa.valid16(h, v7))
        # `sub sp, #0` is not something compilers emit, and the tool refuses it
        s.assume(h != 0xb080)
        targets_program(s, target, code, ofs, caller_addr=A, brs=isa.branch16(h, A, v7), fixed=('t0',))
        return s
    return gen


def sp_zero(h, k):
    """instructions that subtract zero bytes from SP, which the tool refuses"""
    return z3.And([z3.Not(z3.And(c, n == 0)) for c, n in isa.sp32(h, k) if n is not None] +
                  # unpredictable: STMDB of fewer than two registers
                  [z3.Not(z3.And(isa.pat(h, '1110100100x0xxxx'), z3.ULT(isa.popcount(k), 2)))])


def one32(target, name, far=False):
    v7 = 'v6m' not in target
    def gen(root):
        s = Scenario(root, name)
        h, k = s.var('h', 16), s.var('k', 16)
        big, base = 0, BASE_
        ofs = [0x40, 12, 16, -4, -12, 0x102, -0x102, 0x1006, -0x1006, 0x7fc, -0x7fc]
        A = base + 0x2000
        if far:
            A = base + 0x980000
            big = 0x1300000
            ofs = [0x40, 0x41234, -0x41234, 0x81234, -0x81234, 0xc1234, -0xc1232, 0xffffe, -0xffffc,
                   0x201004, -0x201004, 0x401004, -0x401004, 0x801004, -0x801004, 0x610004, -0x610004]
        code = hwords(h, k) + T.bl(A + 4, A + 0x40) + T.BX_LR
        s.assume(isa.is32(h))
        if not v7: s.assume(z3.And(isa.pat(h, '11110xxxxxxxxxxx'), z3.Or(isa.pat(k, '11x1xxxxxxxxxxxx'), isa.pat(h, '11110x11100xxxxx'), isa.pat(h, '11110x11101xxxxx'))))
        else: s.assume(z3.Implies(isa.pat(h, '11110xxxxxxxxxxx'), z3.Not(isa.pat(k, '11x0xxxxxxxxxxxx'))))
        s.assume(sp_zero(h, k))
        targets_program(s, target, code, ofs, caller_addr=A, brs=isa.branch32(h, k, A, v7), fixed=('t0',), big=big, base=base)
        return s
    return gen


def two16(target, name, lim):
    """two 16-bit instructions in a row, the second one from a class that could be mistaken"""
    v7 = 'v6m' not in target
    def gen(root):
        s = Scenario(root, name)
        h, k = s.var('h', 16), s.var('k', 16)
        A = BASE_ + 0x900
        code = hwords(h, k) + T.bl(A + 4, A + 0x40) + T.BX_LR
        s.assume(isa.valid16(h, v7))
        s.assume(isa.valid16(k, v7))
        s.assume(h != 0xb080)
        s.assume(k != 0xb080)
        s.assume(lim(h, k))
        ofs = [0x40, 12, -4, 0x80, -0x80, 0x300, -0x300]
        targets_program(s, target, code, ofs, caller_addr=A, brs=isa.branch16(h, A, v7) + isa.branch16(k, A + 2, v7), fixed=('t0',))
        return s
    return gen


def slots(target, name, n):
    """a body of n slots, each any of: nop, BL/B.W/Bcc.W to one of two functions, branches within
    the body; the IR calls one of the two as well"""
    v7 = 'v6m' not in target
    def gen(root):
        s = Scenario(root, name)
        A = BASE_ + 0x100
        t = [A + 0x200, A - 0x80]
        code, brs = [], []
        size = 4 * n + 2
        for i in range(n):
            at = A + 4 * i
            v = s.var('v%d' % i, 3)
            opts = [T.NOP6 + T.NOP6, T.bl(at, t[0]), T.bl(at, t[1])]
            if v7: opts += [T.bw(at, t[0]), T.bcc_w(at, t[1], 1), T.bw(at, A)]
            else: opts += [T.b_t2(at, t[0]) + T.NOP6, T.bcc_t1(at, t[1], 3) + T.NOP6, T.b_t2(at, A) + T.NOP6]
            opts += [T.bcc_t1(at, A + size - 2, 2) + T.NOP6, T.NOP6 + T.b_t2(at + 2, at)]
            for b in range(4):
                e = z3.BitVecVal(opts[0][b], 8)
                for j, o in enumerate(opts[1:], 1): e = z3.If(v == j, z3.BitVecVal(o[b], 8), e)
                code.append(z3.simplify(e))
            one = [1, 3] if v7 else [1, 3]
            two = [2, 4]
            brs += [(z3.Or([v == x for x in one]), isa.B(t[0], 32), 'b'), (z3.Or([v == x for x in two]), isa.B(t[1], 32), 'b')]
        x = s.var('ir', 1)
        line = cat(z3.If(x == 1, z3.BitVecVal(99, 8), z3.BitVecVal(59, 8)), 'all void @t0()')
        p = targets_program(s, target, code + T.BX_LR, [0x200, -0x80], size=size, caller_addr=A, brs=brs + [(x == 1, isa.B(t[0], 32), 'b')], ir=[line])
        return s
    return gen


def whole(target, name, n=9, reps=25):
    """n functions of some hundred instructions, calling each other from the front, the middle and the end of their bodies; some
    of the instructions in some of them vary"""
    v7 = 'v6m' not in target
    F16 = [0x2001, 0x4608, 0x6808, 0x1840, 0xbf00, 0xa801, 0x9801, 0xb2c0, 0x4282, 0x4788 & 0xff00 | 0x00, 0x8001, 0x0049, 0x2b00]
    F16 = [h for h in F16 if h >> 8 not in (0x47,)]
    F32 = [(0xf3bf, 0x8f5f), (0xf3ef, 0x8010)] + ([(0xf240, 0x1234), (0xf8d0, 0x1004), (0xfb00, 0xf000), (0xe9d0, 0xd000), (0xf1b0, 0x4ff0), (0xeb00, 0xd001), (0xf04f, 0x747f)] if v7 else [])
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        F = z3.BoolVal(False)
        addr, bodies = [], []
        pad = []
        for k in range(reps):
            pad += T.hw(F16[k % len(F16)])
            if k % 3 == 0: pad += T.hw(*F32[k // 3 % len(F32)])
        if len(pad) % 4: pad += T.NOP6
        a = p.base + 0x100
        size = 3 * len(pad) + 4 * 4 + 4
        for i in range(n):
            addr.append(a)
            a += size + (2 if i % 2 else 6)
        W = {'g%d' % i: {} for i in range(n)}
        for i in range(n):
            A = addr[i]
            at1, at2, at3 = A, A + 4 + len(pad), A + 8 + 2 * len(pad)
            end = A + 12 + 3 * len(pad)
            x, y, z = addr[(i + 1) % n], addr[(i + 4) % n], addr[(i + 7) % n]
            loop = (T.bw(end, at1) if v7 else T.NOP6 + T.b_t2(end + 2, end - 40))
            tail = T.bcc_w(at3, z, 4) if v7 else T.bl(at3, z)
            me = W['g%d' % i]
            if i in (0, n // 2, n - 1):
                u = s.var('u%d' % i, 2)
                o = [T.bl(at2, y), T.NOP6 + T.NOP6, T.bl(at2, x), T.bl(at2, A)]
                mid = [z3.simplify(z3.If(u == 0, z3.BitVecVal(o[0][b], 8), z3.If(u == 1, z3.BitVecVal(o[1][b], 8), z3.If(u == 2, z3.BitVecVal(o[2][b], 8), z3.BitVecVal(o[3][b], 8))))) for b in range(4)]
                me['g%d' % ((i + 4) % n)] = u == 0
                me['g%d' % i] = u == 3
            else:
                mid = T.bl(at2, y)
                me['g%d' % ((i + 4) % n)] = z3.BoolVal(True)
            me['g%d' % ((i + 1) % n)] = me['g%d' % ((i + 7) % n)] = z3.BoolVal(True)
            for j in range(n): me.setdefault('g%d' % j, F)
            code = T.bl(at1, x) + pad + mid + pad + tail + pad + loop + T.BX_LR + T.NOP6
            assert len(code) == size
            p.fn('g%d' % i, code=code, size=size, addr=A, ir=None)
        p.fill(s)
        s.truth['edges'] = W
        s.truth['ignore'] = ('?',)
        return s
    return gen


def sections(target, name, ram=0x20000000):
    """functions in sections before and behind .text and in RAM; a function before .text and one in RAM contain any 32-bit
    instruction each that is or may be mistaken for a branch to functions in the same and in the other sections"""
    v7 = 'v6m' not in target
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        h, k = s.var('h', 16), s.var('k', 16)
        # the symbolic choice among a few instructions in RAM
        u = s.var('u', 2)
        p.base = 0x08000400
        p.sections = [('.init', 0x08000200, 0x40, 1, 6), ('.text.late', 0x08000800, 0x20, 1, 6), ('.data', ram, 0x60, 1, 7),
                      ('.bss', ram + 0x60, 0, 8, 3), ('.debug_info', 0, 0x40, 1, 0)]
        I, Rm = 0x08000200, ram
        def fn(n, a, code, sect=None, size=None):
            f = p.fn(n, code=code, addr=a, size=len(code) if size is None else size)
            f.sect = sect
            return f
        fn('i0', I, T.hw(0xb510) + hwords(h, k) + T.BX_LR, '.init')
        fn('i1', I + 0x20, T.bl(I + 0x20, 0x08000410) + T.BX_LR, '.init')
        fn('m0', 0x08000400, T.bl(0x08000400, 0x08000810) + T.BX_LR)
        fn('m1', 0x08000410, T.bl(0x08000410, I + 0x20) + T.BX_LR)
        fn('l0', 0x08000800, T.BX_LR, '.text.late')
        fn('l1', 0x08000810, T.BX_LR, '.text.late')
        o = [T.bl(Rm + 4, Rm + 0x20), T.NOP6 + T.NOP6, T.bl(Rm + 4, Rm + 0x40), T.bl(Rm + 4, Rm)]
        mid = [z3.simplify(z3.If(u == 0, z3.BitVecVal(o[0][b], 8), z3.If(u == 1, z3.BitVecVal(o[1][b], 8), z3.If(u == 2, z3.BitVecVal(o[2][b], 8), z3.BitVecVal(o[3][b], 8))))) for b in range(4)]
        f = fn('r0', Rm, T.hw(0xb510) + T.NOP6 + mid + T.BX_LR + T.NOP6 + T.bl(Rm + 12, Rm + 0x20), '.data')
        f.marks = [(12, 'd')]
        fn('r1', Rm + 0x20, T.bl(Rm + 0x20, Rm + 0x40) + T.BX_LR, '.data')
        # handwritten assembly without a size, the last function of its section
        fn('r2', Rm + 0x40, T.bl(Rm + 0x40, Rm + 0x20) + T.BX_LR, '.data', size=0)
        p.fill(s)
        s.assume(isa.is32(h))
        if not v7: s.assume(z3.And(isa.pat(h, '11110xxxxxxxxxxx'), z3.Or(isa.pat(k, '11x1xxxxxxxxxxxx'), isa.pat(h, '11110x11100xxxxx'), isa.pat(h, '11110x11101xxxxx'))))
        else: s.assume(z3.Implies(isa.pat(h, '11110xxxxxxxxxxx'), z3.Not(isa.pat(k, '11x0xxxxxxxxxxxx'))))
        s.assume(sp_zero(h, k))
        brs = isa.branch32(h, k, I + 2, v7)
        at = {'i0': I, 'i1': I + 0x20, 'm0': 0x08000400, 'm1': 0x08000410, 'l0': 0x08000800, 'l1': 0x08000810}
        W = {n: z3.Or([z3.And(c, t == isa.B(a, 32)) for c, t, kind in brs if n != 'i0' or kind == 'bl'] + [z3.BoolVal(False)]) for n, a in at.items()}
        inside = lambda t: z3.And(z3.UGE(t, isa.B(I, 32)), z3.ULT(t, isa.B(I + 8, 32)))
        Y, N = z3.BoolVal(True), z3.BoolVal(False)
        s.truth['edges'] = {'i0': W, 'i1': {'m1': Y}, 'm0': {'l1': Y}, 'm1': {'i1': Y}, 'l0': {}, 'l1': {},
                            'r0': {'r1': u == 0, 'r2': u == 2, 'r0': u == 3}, 'r1': {'r2': Y}, 'r2': {'r1': Y}}
        s.truth['accept'] = z3.And([z3.Implies(c, z3.Or([t == isa.B(a, 32) for a in at.values()] + ([inside(t)] if kind == 'b' else []))) for c, t, kind in brs])
        s.truth['ignore'] = ('?',)
        return s
    return gen


def same_names(target, name):
    """local functions of different objects with one name; they are told apart by their usage"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        at = {8: p.base + 0x40, 16: p.base + 0x80, 24: p.base + 0xc0}
        leaf = p.base + 0x100
        p.fn('main', code=T.bl(p.base, at[8]) + T.bl(p.base + 4, at[24]) + T.BX_LR, addr=p.base)
        W = {0: {8: z3.BoolVal(True), 24: z3.BoolVal(True)}, 4: {}}
        for k, a in at.items():
            v = s.var('v%d' % k, 2)
            to = [8, 16, 24, 4]
            o = [T.bl(a + 2, {**at, 4: leaf}[x]) for x in to]
            mid = [z3.simplify(z3.If(v == 0, z3.BitVecVal(o[0][b], 8), z3.If(v == 1, z3.BitVecVal(o[1][b], 8), z3.If(v == 2, z3.BitVecVal(o[2][b], 8), z3.BitVecVal(o[3][b], 8))))) for b in range(4)]
            p.fn('init', code=T.sub_sp(k) + mid + T.BX_LR, addr=a, aliases=['second'] if k == 16 else [])
            W[k] = {x: v == i for i, x in enumerate(to)}
        p.fn('leaf', code=T.sub_sp(4) + T.BX_LR, addr=leaf)
        p.fill(s)
        s.truth['by'] = W
        s.truth['names'] = {0: ('main',), 4: ('leaf',), 8: ('init',), 16: ('init', 'second'), 24: ('init',)}
        return s
    return gen


def by_usage(c):
    """the functions have different local usages, by which the nodes are identified"""
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        return
    g = c.graph()
    ids = {}
    for n in g.nodes.values():
        if n.local is None:
            if show(n.name) != '?': c.fail('local usage of %s is unknown' % show(n.name))
            continue
        for k, names in c.T['names'].items():
            if show(n.name) in names:
                q = z3.simplify(n.local == k) if z3.is_expr(n.local) else z3.BoolVal(n.local == k)
                if z3.is_true(q): ids.setdefault(k, []).append(n.id)
    for k in c.T['names']:
        if len(ids.get(k, [])) != 1: c.fail('%d nodes for the function of %d bytes' % (len(ids.get(k, [])), k))
    if any(len(ids.get(k, [])) != 1 for k in c.T['names']): return
    for a, want in c.T['by'].items():
        out = [y for x, y in g.edges if x == ids[a][0]]
        for b in c.T['names']:
            n = out.count(ids[b][0])
            cond = want.get(b, z3.BoolVal(False))
            if n > 1: c.fail('an edge is repeated')
            elif n: c.require(cond, 'edge from %s(%d) to %s(%d) although nothing branches there' % (c.T['names'][a][0], a, c.T['names'][b][0], b))
            else: c.require(z3.Not(cond), 'edge from %s(%d) to %s(%d) is missing' % (c.T['names'][a][0], a, c.T['names'][b][0], b))
    c.tag = 'edges'


def scenarios(tier):
    q = [
        dict(name='v7-sections', gen=sections('thumbv7em-none-eabihf', 's7'), oracle=edges_oracle, reach=['edges']),
        dict(name='v6-sections', gen=sections('thumbv6m-none-eabi', 's6', 0xc0000000), oracle=edges_oracle, reach=['edges']),
        dict(name='v7-same-names', gen=same_names('thumbv7em-none-eabihf', 'n7'), oracle=by_usage, reach=['edges']),
        dict(name='v6-same-names', gen=same_names('thumbv6m-none-eabi', 'n6'), oracle=by_usage, reach=['edges']),
        dict(name='v7-whole', gen=whole('thumbv7em-none-eabi', 'w7'), oracle=edges_oracle, reach=['edges']),
        dict(name='v6-whole', gen=whole('thumbv6m-none-eabi', 'w6'), oracle=edges_oracle, reach=['edges']),
        dict(name='v7-16bit', gen=one16('thumbv7em-none-eabi', 'a'), oracle=edges_oracle, reach=['edges']),
        dict(name='v6-16bit', gen=one16('thumbv6m-none-eabi', 'b'), oracle=edges_oracle, reach=['edges']),
        dict(name='v7-32bit', gen=one32('thumbv7m-none-eabi', 'c'), oracle=edges_oracle, reach=['edges']),
        dict(name='v7-32bit-far', gen=one32('thumbv7em-none-eabihf', 'f', True), oracle=edges_oracle, reach=['edges'], validate=1),
        dict(name='v6-32bit', gen=one32('thumbv6m-none-eabi', 'd', True), oracle=edges_oracle, reach=['edges'], validate=1),
        dict(name='v7-slots', gen=slots('thumbv7em-none-eabihf', 'e', 3), oracle=edges_oracle, reach=['edges']),
        dict(name='v6-slots', gen=slots('thumbv6m-none-eabi', 'g', 3), oracle=edges_oracle, reach=['edges']),
    ]
    return q


BOUNDS = 'three local functions of one name that call any of each other; functions in .text, in sections before and behind it and in a RAM section (with data after the code, and without a size), any 32-bit encoding in one of them; nine functions of some hundred instructions that call each other; every defined 16-bit and every 32-bit Thumb encoding in a function followed by a known BL (that must be found), with branch targets up to +-9.5 MB; bodies of 3 slots of calls, tail calls and internal branches'
