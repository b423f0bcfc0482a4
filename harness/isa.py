"""What the instructions mean, from the architecture manuals (ARMv7-M ARM DDI 0403E.b, ARMv6-M ARM
DDI 0419D), as z3 formulas over a 16-bit halfword h0 (and h1).  Written from the manuals only."""
import z3


def B(x, w): return z3.BitVecVal(x, w)
def bits(h, hi, lo): return z3.Extract(hi, lo, h)


def pat(h, p):
    """bit pattern, most significant bit first; x = any"""
    p = p.replace('_', '').replace(' ', '')
    assert len(p) == h.size(), p
    m = int(''.join('0' if c == 'x' else '1' for c in p), 2)
    v = int(''.join('0' if c == 'x' else c for c in p), 2)
    return (h & m) == v


def is32(h): return z3.Or(pat(h, '11101xxxxxxxxxxx'), pat(h, '1111xxxxxxxxxxxx'))


def valid16(h, v7):
    """16-bit encodings that are defined (permanently undefined UDF included, compilers emit it)"""
    misc = ['10110000xxxxxxxx', '10110010xxxxxxxx', '1011010xxxxxxxxx', '10110110011x00xx', '1011101000xxxxxx', '1011101001xxxxxx', '1011101011xxxxxx', '1011110xxxxxxxxx', '10111110xxxxxxxx']
    hints = ['1011111100000000', '1011111100010000', '1011111100100000', '1011111100110000', '1011111101000000']
    ok = misc + hints
    if v7: ok += ['1011x0x1xxxxxxxx', '10111111xxxxxxxx']
    return z3.And(z3.Not(is32(h)),
                  z3.Implies(pat(h, '1011xxxxxxxxxxxx'), z3.Or([pat(h, p) for p in ok])),
                  z3.Implies(pat(h, '01000111xxxxxxxx'), pat(h, '01000111xxxxx000')),
                  # PUSH/POP/STM/LDM of nothing are unpredictable
                  z3.Not(pat(h, '1011010000000000')), z3.Not(pat(h, '1011110000000000')), z3.Not(pat(h, '1100xxxx00000000')))


def sx(e, w=32): return z3.SignExt(w - e.size(), e)


def branch16(h, addr, v7=False):
    """(condition, target) pairs of the 16-bit direct branches"""
    c = z3.And(pat(h, '1101xxxxxxxxxxxx'), z3.Not(pat(h, '1101111xxxxxxxxx')))
    t1 = B(addr + 4, 32) + sx(z3.Concat(bits(h, 7, 0), B(0, 1)))
    t2 = B(addr + 4, 32) + sx(z3.Concat(bits(h, 10, 0), B(0, 1)))
    t3 = B(addr + 4, 32) + zx(z3.Concat(bits(h, 9, 9), bits(h, 7, 3), B(0, 1)), 32)
    return [(c, t1, 'b'), (pat(h, '11100xxxxxxxxxxx'), t2, 'b')] + ([(pat(h, '1011x0x1xxxxxxxx'), t3, 'b')] if v7 else [])


def branch32(h, k, addr, v7):
    s = bits(h, 10, 10)
    j1, j2 = bits(k, 13, 13), bits(k, 11, 11)
    i1, i2 = ~(j1 ^ s), ~(j2 ^ s)
    wide = B(addr + 4, 32) + sx(z3.Concat(s, i1, i2, bits(h, 9, 0), bits(k, 10, 0), B(0, 1)))
    cond = B(addr + 4, 32) + sx(z3.Concat(s, j2, j1, bits(h, 5, 0), bits(k, 10, 0), B(0, 1)))
    pre = pat(h, '11110xxxxxxxxxxx')
    r = [(z3.And(pre, pat(k, '11x1xxxxxxxxxxxx')), wide, 'bl')]
    if v7:
        r += [(z3.And(pre, pat(k, '10x1xxxxxxxxxxxx')), wide, 'b'),
              (z3.And(pre, pat(k, '10x0xxxxxxxxxxxx'), z3.Not(pat(h, '11110x111xxxxxxx'))), cond, 'b')]
    return r


def popcount(e, w=64):
    return z3.Sum([z3.ZeroExt(w - 1, bits(e, i, i)) for i in range(e.size())])


def zx(e, w=64): return z3.ZeroExt(w - e.size(), e)


def expand_imm(h, k):
    """ThumbExpandImm(i:imm3:imm8)"""
    imm = z3.Concat(bits(h, 10, 10), bits(k, 14, 12), bits(k, 7, 0))
    b = bits(k, 7, 0)
    z8 = B(0, 8)
    # rotation by 8..31 of an 8-bit value: nothing wraps around
    rot = z3.Concat(B(0, 24), B(1, 1), bits(k, 6, 0)) << (B(32, 32) - z3.ZeroExt(27, bits(imm, 11, 7)))
    return z3.If(bits(imm, 11, 8) == 0, z3.Concat(B(0, 24), b),
                 z3.If(bits(imm, 11, 8) == 1, z3.Concat(z8, b, z8, b),
                       z3.If(bits(imm, 11, 8) == 2, z3.Concat(b, z8, b, z8),
                             z3.If(bits(imm, 11, 8) == 3, z3.Concat(b, b, b, b), rot))))


def sp16(h):
    """SP effects of 16-bit instructions: [(condition, bytes subtracted | None = not a constant)]"""
    return [(pat(h, '1011010xxxxxxxxx'), 4 * popcount(bits(h, 8, 0))),
            (pat(h, '101100001xxxxxxx'), zx(z3.Concat(bits(h, 6, 0), B(0, 2)))),
            (z3.Or(pat(h, '010001001xxxx101')), None)]


def sp32(h, k):
    """SP effects of the 32-bit stack allocating instructions (ARMv7-M)"""
    rd_sp = pat(k, 'xxxx1101xxxxxxxx')
    single = lambda op: z3.And(pat(h, op), pat(k, 'xxxx1x01xxxxxxxx'))
    return [
        (z3.And(pat(h, '1110100100101101'), pat(k, '0x0xxxxxxxxxxxxx')), 4 * popcount(k)),                  # STMDB sp!
        (z3.And(pat(h, '11110x01101x1101'), pat(k, '0xxx1101xxxxxxxx')), zx(expand_imm(h, k))),              # SUB{S}.W sp, sp, #const
        (z3.And(pat(h, '11110x1010101101'), pat(k, '0xxx1101xxxxxxxx')), zx(z3.Concat(bits(h, 10, 10), bits(k, 14, 12), bits(k, 7, 0)))),   # SUBW sp, sp, #imm12
        (z3.And(pat(h, '11101011101x1101'), pat(k, '0xxx1101xxxxxxxx')), None),                              # SUB{S}.W sp, sp, Rm
        (z3.And(pat(h, '1110110100101101'), pat(k, 'xxxx101xxxxxxxxx')), zx(z3.Concat(bits(k, 7, 0), B(0, 2)))),   # VPUSH (D = 0)
        (z3.And(pat(h, '1110110101101101'), pat(k, 'xxxx101xxxxxxxxx')), zx(z3.Concat(bits(k, 7, 0), B(0, 2)))),   # VPUSH (D = 1)
        (single('1111100001001101'), zx(bits(k, 7, 0))),      # STR  Rt, [sp, #-imm8]!
        (single('1111100000001101'), zx(bits(k, 7, 0))),      # STRB
        (single('1111100000101101'), zx(bits(k, 7, 0))),      # STRH
        (pat(h, '1110100101101101'), zx(z3.Concat(bits(k, 7, 0), B(0, 2)))),    # STRD Rt, Rt2, [sp, #-imm8]!
    ]


def tables16(h):
    """jumps through a table within the function: ADD pc, Rm"""
    return pat(h, '010001001xxxx111')


def tables32(h, k):
    """TBB, TBH"""
    return z3.And(pat(h, '111010001101xxxx'), pat(k, '11110000000xxxxx'))


def indirect16(h):
    """calls and tail calls through a register; `bx lr` and `mov pc, lr` are returns"""
    return z3.Or(pat(h, '010001111xxxxxxx'),
                 z3.And(z3.Or(pat(h, '010001110xxxxxxx'), pat(h, '010001101xxxx111')), z3.Not(bits(h, 6, 3) == 14)))


def indirect32(h, k, v7):
    """branches through memory: LDR into PC, unless it is `pop {pc}`"""
    if not v7: return z3.BoolVal(False)
    ldr = z3.And(z3.Or(pat(h, '111110001101xxxx'), pat(h, '111110000101xxxx'), pat(h, '111110001101xxxx')), pat(k, '1111xxxxxxxxxxxx'))
    pop = z3.And(pat(h, '1111100001011101'), pat(k, '11111011xxxxxxxx'))   # any amount of stack
    # LDM, LDMDB of a list with PC; from SP it is a return
    ldm = z3.And(z3.Or(pat(h, '1110100010x1xxxx'), pat(h, '1110100100x1xxxx')), pat(k, '1x0xxxxxxxxxxxxx'), bits(h, 3, 0) != 13)
    return z3.Or(z3.And(ldr, z3.Not(pop)), ldm)
