"""Encodings of the Thumb instructions the scenarios use (ARM DDI 0403E / 0419D)."""


def hw(*xs):
    o = []
    for x in xs: o += [x & 255, x >> 8]
    return o


def bl(frm, to, link=True):
    """BL T1 / B.W T4 at address `frm`"""
    off = to - (frm + 4)
    s = (off >> 24) & 1
    i1, i2 = (off >> 23) & 1, (off >> 22) & 1
    j1, j2 = (i1 ^ 1) ^ s, (i2 ^ 1) ^ s
    imm10, imm11 = (off >> 12) & 0x3ff, (off >> 1) & 0x7ff
    return hw(0xf000 | s << 10 | imm10, (0xd000 if link else 0x9000) | j1 << 13 | j2 << 11 | imm11)


def bw(frm, to):
    return bl(frm, to, False)


def b_t2(frm, to):
    off = to - (frm + 4)
    return hw(0xe000 | (off >> 1) & 0x7ff)


def bcc_t1(frm, to, cond=0):
    off = to - (frm + 4)
    return hw(0xd000 | cond << 8 | (off >> 1) & 0xff)


def bcc_w(frm, to, cond=0):
    off = to - (frm + 4)
    s, j2, j1 = (off >> 20) & 1, (off >> 19) & 1, (off >> 18) & 1
    return hw(0xf000 | s << 10 | cond << 6 | (off >> 12) & 0x3f, 0x8000 | j1 << 13 | j2 << 11 | (off >> 1) & 0x7ff)


NOP = hw(0xbf00)
NOP6 = hw(0x46c0)         # mov r8, r8
BX_LR = hw(0x4770)
UDF = hw(0xdefe)
def push(n):              # push n registers (n <= 8: low registers, 9: plus lr)
    r = (1 << min(n, 8)) - 1
    return hw(0xb400 | r | (0x100 if n > 8 else 0))
PUSH_R7_LR = hw(0xb580)
POP_R7_PC = hw(0xbd80)
BLX_R3 = hw(0x4798)
BX_R3 = hw(0x4718)
def sub_sp(n): return hw(0xb080 | n >> 2)
def add_sp(n): return hw(0xb000 | n >> 2)
