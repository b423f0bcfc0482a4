from c04 import *


def both_oracle(c):
    edges_oracle(c)
    if c.pending: return
    local_oracle(c)
    c.tag = 'data'


T1 = z3.BoolVal(True)


def build(s, target, pieces, after=True, tail_marks=(), second=True, size=None):
    """pieces: list of ('i', bytes) instructions | ('bl', name) | ('d', bytes) data.  Mapping symbols
    are put at each change.  The function pushes 8 bytes at most once per 'push'."""
    p = Program(target)
    A = p.base + 0x40
    callees = sorted({x[1] for x in pieces if x[0] == 'bl'})
    cal = {n: p.base + 8 * i for i, n in enumerate(callees)}
    code, marks, kind = [], [], 't'
    used = 0
    for k, v in pieces:
        nk = 'd' if k == 'd' else 't'
        if nk != kind or k == 'd': marks.append((len(code), nk))
        kind = nk
        at = A + len(code)
        if k == 'bl': code += T.bl(at, cal[v])
        elif k == 'push':
            code += T.push(v)
            used += 4 * v
        else: code += list(v)
    for n in callees: p.fn(n, code=T.BX_LR, addr=cal[n])
    f = p.fn('c', code=code, addr=A, size=size)
    f.marks = marks
    far = 0x100 if len(code) < 0x100 else 0x1000
    if second:
        p.fn('z', code=T.push(1) + T.bl(A + far + 2, cal[callees[0]]) + T.BX_LR, addr=A + far)
    p.data_marks = list(tail_marks)
    p.fill(s)
    s.truth['edges'] = {'c': {n: T1 for n in callees}}
    s.truth['local'] = {'c': [(T1, z3.BitVecVal(used, 64))]}
    if second:
        s.truth['edges']['z'] = {callees[0]: T1}
        s.truth['local']['z'] = [(T1, z3.BitVecVal(4, 64))]
    return p


def layout(name, target, mk, **kw):
    def gen(root):
        s = Scenario(root, name)
        build(s, target, mk(lambda n, k: [s.var('%s%d' % (n, i), 8) for i in range(k)]), **kw)
        return s
    return gen


def sliding(name, target):
    """the data region starts and ends anywhere: both mapping symbols have symbolic addresses"""
    def gen(root):
        s = Scenario(root, name)
        N = 12
        p = Program(target)
        A = p.base + 0x40
        d = [s.var('d%d' % i, 8) for i in range(N)]
        a, b = s.var('a', 3), s.var('b', 3)     # data = [2a, 2b) within the N bytes
        s.assume(z3.And(z3.ULT(a, b), z3.ULE(b, N // 2)))
        nop = T.NOP6
        body = [z3.simplify(z3.If(z3.And(z3.ULE(a, i // 2), z3.ULT(z3.BitVecVal(i // 2, 3), b)), d[i], z3.BitVecVal(nop[i % 2], 8))) for i in range(N)]
        p.fn('g', code=T.BX_LR, addr=p.base)
        p.fn('h', code=T.BX_LR, addr=p.base + 8)
        pre = T.push(2) + T.bl(A + 2, p.base)
        code = pre + body + T.push(1)
        code += T.bl(A + len(code), p.base + 8) + T.BX_LR
        f = p.fn('c', code=code, addr=A)
        p.fn('z', code=T.BX_LR, addr=A + 0x100)
        z32 = lambda v: z3.ZeroExt(29, v) * 2 + (A + len(pre))
        p.data_marks = [(z32(a), 'd'), (z32(b), 't')]
        p.fill(s)
        s.truth['edges'] = {'c': {'g': T1, 'h': T1}}
        s.truth['local'] = {'c': [(T1, z3.BitVecVal(12, 64))]}
        return s
    return gen


def unsized(name, target, n):
    """n functions without a size in one run of code (one mapping symbol), as an assembler file has them"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        p.tags = False
        A = p.base + 0x40
        p.fn('g', code=T.BX_LR, addr=p.base)
        p.fn('h', code=T.BX_LR, addr=p.base + 8)
        at = A
        p.data_marks = [(p.base, 't'), (A, 't')]
        s.truth['edges'], s.truth['local'] = {}, {}
        for i in range(n):
            code = T.push(i + 1)
            to = p.base + 8 * (i % 2)
            code += T.bl(at + len(code), to) + T.BX_LR
            if i == 1:
                p.data_marks.append((at + len(code), 'd'))
                code += [s.var('d%d' % k, 8) for k in range(4)]
                p.data_marks.append((at + len(code), 't'))
            p.fn('c%d' % i, code=code, addr=at, size=0)
            s.truth['edges']['c%d' % i] = {'g': z3.BoolVal(i % 2 == 0), 'h': z3.BoolVal(i % 2 == 1)}
            s.truth['local']['c%d' % i] = [(T1, z3.BitVecVal(4 * (i + 1), 64))]
            at += len(code)
        p.fill(s)
        return s
    return gen


V7, V6 = 'thumbv7em-none-eabihf', 'thumbv6m-none-eabi'


def scenarios(tier):
    I = lambda *h: ('i', hwords(*h))
    ret = ('i', T.BX_LR)
    L = [
        ('middle', V7, lambda D: [('push', 2), ('bl', 'g'), ('d', D('d', 8)), ('push', 1), ('bl', 'h'), ret], {}),
        ('middle-v6', V6, lambda D: [('push', 2), ('bl', 'g'), ret, ('d', D('d', 6)), ('bl', 'h'), ret], {}),
        ('two-bytes', V7, lambda D: [('bl', 'g'), ('d', D('d', 2)), ('push', 3), ('bl', 'h'), ('d', D('e', 2)), ('bl', 'k'), ret], {}),
        ('end', V6, lambda D: [('push', 2), ('bl', 'g'), ret, I(0xbf00), ('d', D('d', 12))], {}),
        ('start', V7, lambda D: [('d', D('d', 4)), ('push', 2), ('bl', 'g'), ret], {}),
        ('split-data', V7, lambda D: [('push', 2), ('bl', 'g'), ('d', D('d', 4)), ('d', D('e', 4)), ('d', D('f', 2)), ('bl', 'h'), ret], {}),
        ('end-of-text', V6, lambda D: [('push', 2), ('bl', 'g'), ret, I(0xbf00), ('d', D('d', 12))], dict(second=False)),
        ('end-of-text-rodata', V6, lambda D: [('push', 2), ('bl', 'g'), ret, I(0xbf00), ('d', D('d', 12))], dict(second=False, tail_marks=[(0x08009000, 'd'), (0x20000000, 'd')])),
        ('long', V7, lambda D: [('push', 2), ('bl', 'g'), ('d', D('d', 16) * 90), ('push', 1), ('bl', 'h'), ('d', D('e', 10) * 13), ('bl', 'k'), ret], {}),
        ('long-v6', V6, lambda D: [('push', 2), ('bl', 'g'), ('d', D('d', 20) * 60), ('bl', 'h'), ret], {}),
        ('rodata-after', V7, lambda D: [('bl', 'g'), ('d', D('d', 4)), ('bl', 'h'), ret], dict(tail_marks=[(0x08009000, 'd'), (0x20000000, 'd')])),
        ('no-size', V7, lambda D: [('push', 2), ('bl', 'g'), ('d', D('d', 4)), ('bl', 'h'), ret, ('d', D('e', 4))], dict(size=0)),
        ('no-size-end-of-text', V6, lambda D: [('push', 2), ('bl', 'g'), ret, I(0xbf00), ('d', D('d', 8))], dict(size=0, second=False, tail_marks=[(0x08009000, 'd')])),
    ]
    q = [dict(name=n, gen=layout(n, t, m, **k), oracle=both_oracle, reach=['data'], validate=2) for n, t, m, k in L]
    q.append(dict(name='unsized', gen=unsized('us', V7, 4), oracle=both_oracle, reach=['data']))
    q.append(dict(name='sliding-v7', gen=sliding('s7', V7), oracle=both_oracle, reach=['data']))
    q.append(dict(name='sliding-v6', gen=sliding('s6', V6), oracle=both_oracle, reach=['data']))
    if tier == 'quick':
        for x in q: x['deadline'] = 75      # a few seconds suffice unless data is decoded
    return q


BOUNDS = 'data regions of up to 12 bytes with every content (up to 1440 bytes with every repeated content of up to 20 bytes), at the start, in the middle (at every even position and length of a 12 byte window), split by further mapping symbols, and at the end of functions, with and without mapping symbols after .text'
