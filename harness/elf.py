"""Writers for the binary inputs: ELF32/ELF64 executables and objects, ar archives.
Any byte may be symbolic: content is a list of int (concrete) | z3 BitVec(8) expressions."""
import struct
import z3


def b(x):
    """bytes-like -> list"""
    return list(x)


def le(v, n):
    """little-endian bytes of an int or a z3 bit-vector of 8n bits"""
    if isinstance(v, int):
        return list((v & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))
    assert v.size() == 8 * n
    return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]


def is_name(x):
    """one name (str or content list), as opposed to a list of names"""
    return isinstance(x, str) or (len(x) > 0 and (isinstance(x[0], int) or z3.is_expr(x[0])))


class StrTab:
    def __init__(self):
        self.d = [0]
        self.m = {}

    def add(self, s):
        if isinstance(s, str):
            s = list(s.encode('utf-8'))
        k = tuple(x if isinstance(x, int) else ('e', x.get_id()) for x in s)
        if k not in self.m:
            self.m[k] = len(self.d)
            self.d += list(s) + [0]
        return self.m[k]


class Elf:
    """sections are placed in the order given; symbols keep their order"""
    def __init__(self, cls=32, etype=2, machine=40):
        self.cls, self.etype, self.machine = cls, etype, machine
        self.secs = []   # dict(name,type,flags,addr,data,link,info,align,entsize)
        self.syms = []   # dict(name,value,size,info,shndx)

    def sec(self, name, data, type=1, flags=0, addr=0, link=0, info=0, align=4, entsize=0, big=0):
        # big: the section is placed at the end of the file and continues with zeros up to this size
        self.secs.append(dict(big=big, name=name, type=type, flags=flags, addr=addr, data=data, link=link, info=info, align=align, entsize=entsize))
        return len(self.secs)       # index (0 is the null section)

    def sym(self, name, value, size=0, info=0x12, shndx=1):
        self.syms.append(dict(name=name, value=value, size=size, info=info, shndx=shndx))
        return len(self.syms)       # index (0 is the null symbol)

    def build(self, symtab=True):
        c32 = self.cls == 32
        strt = StrTab()
        sd = [0] * (16 if c32 else 24)
        for s in self.syms:
            n = strt.add(s['name']) if not (isinstance(s['name'], str) and s['name'] == '') else 0
            if c32:
                sd += le(n, 4) + le(s['value'], 4) + le(s['size'], 4) + le(s['info'], 1) + [0] + le(s['shndx'], 2)
            else:
                sd += le(n, 4) + le(s['info'], 1) + [0] + le(s['shndx'], 2) + le(s['value'], 8) + le(s['size'], 8)
        secs = list(self.secs)
        nsym = len(secs) + 1
        if symtab:
            secs.append(dict(name='.symtab', type=2, flags=0, addr=0, data=sd, link=nsym + 1, info=1, align=4 if c32 else 8, entsize=16 if c32 else 24))
            secs.append(dict(name='.strtab', type=3, flags=0, addr=0, data=strt.d, link=0, info=0, align=1, entsize=0))
        for s in secs:
            if s['link'] == 'symtab':
                s['link'] = nsym
        sh = StrTab()
        secs.append(dict(name='.shstrtab', type=3, flags=0, addr=0, data=None, link=0, info=0, align=1, entsize=0))
        for s in secs:
            s['n'] = sh.add(s['name'])
        secs[-1]['data'] = sh.d
        hs = 52 if c32 else 64
        out = [0] * hs
        bigs = [s for s in secs if s.get('big')]
        for s in secs:
            if s.get('big'): continue
            a = max(s['align'], 8)
            while len(out) % a:
                out.append(0)
            s['off'] = len(out)
            out += s['data']
        while len(out) % 8:
            out.append(0)
        shoff = len(out)
        es = 40 if c32 else 64
        out += [0] * es
        n = len(secs) + 1
        self.total = None
        for s in bigs:
            s['off'] = (shoff + es * n + 15) // 16 * 16
            self.total = s['off'] + s['big']
        for s in secs:
            if c32:
                out += list(struct.pack('<IIIIIIIIII', s['n'], s['type'], s['flags'], s['addr'], s['off'], s.get('big') or len(s['data']), s['link'], s['info'], s['align'], s['entsize']))
            else:
                out += list(struct.pack('<IIQQQQIIQQ', s['n'], s['type'], s['flags'], s['addr'], s['off'], len(s['data']), s['link'], s['info'], s['align'], s['entsize']))
        for s in bigs:
            out += [0] * (s['off'] - len(out)) + list(s['data'])
        ident = bytes([0x7f, 0x45, 0x4c, 0x46, 1 if c32 else 2, 1, 1, 0] + [0] * 8)
        if c32:
            h = ident + struct.pack('<HHIIIIIHHHHHH', self.etype, self.machine, 1, 0, 0, shoff, 0x5000200, hs, 0, 0, es, n, n - 1)
        else:
            h = ident + struct.pack('<HHIQQQIHHHHHH', self.etype, self.machine, 1, 0, 0, shoff, 0, hs, 0, 0, es, n, n - 1)
        out[:hs] = list(h)
        self.shoff = shoff
        self.layout = secs
        return out


def uleb(v, n=None):
    """ULEB128 of a concrete int, optionally padded to n bytes"""
    o = []
    while True:
        x = v & 127
        v >>= 7
        if v or (n and len(o) + 1 < n):
            o.append(x | 128)
        else:
            o.append(x)
            return o


def uleb_sym(v, n):
    """padded n-byte ULEB128 of a z3 bit-vector of 7n bits (the value it encodes)"""
    assert v.size() == 7 * n
    o = []
    for i in range(n):
        x = z3.Extract(7 * i + 6, 7 * i, v)
        o.append(z3.Concat(z3.BitVecVal(1 if i + 1 < n else 0, 1), x))
    return o


def stack_object(recs, cls=32, machine=40, etype=1, one_section=False, rela=False, thumb=True):
    """relocatable object with .stack_sizes records.
    recs: list of (names, size_bytes) ; names: one or several symbol names of one function,
    size_bytes: the ULEB bytes.  Each function lives in its own section unless one_section."""
    e = Elf(cls, etype, machine)
    c32 = cls == 32
    w = 4 if c32 else 8
    plan = []
    if one_section:
        t = e.sec('.text', [0] * (4 * max(1, len(recs))), type=1, flags=6)
        for i, (names, sz) in enumerate(recs):
            plan.append((names, sz, t, 4 * i))
    else:
        for i, (names, sz) in enumerate(recs):
            t = e.sec('.text.f%d' % i, [0] * 4, type=1, flags=6)
            plan.append((names, sz, t, 0))
    symidx = {}
    secs = {}
    for i, (names, sz, t, off) in enumerate(plan):
        if not one_section or i == 0:
            secs[t] = e.sym('', 0, 0, 0x03, t)
        e.sym('$t.%d' % i, off, 0, 0x00, t)
    for i, (names, sz, t, off) in enumerate(plan):
        for n in ([names] if is_name(names) else names):
            symidx[i] = e.sym(n, off + (1 if thumb else 0), 4, 0x12, t)
    def rel(i, pos, t):
        sy = secs[t]
        if c32:
            r = le(pos, 4) + le((sy << 8) | 2, 4)
            if rela: r += le(0, 4)
        else:
            r = le(pos, 8) + le((sy << 32) | 1, 8)
            if rela: r += le(0, 8)
        return r
    rt = 4 if rela else 9
    es = (12 if rela else 8) if c32 else (24 if rela else 16)
    if one_section:
        d, r = [], []
        for i, (names, sz, t, off) in enumerate(plan):
            r += rel(i, len(d), t)
            d += le(off, w) + list(sz)
        if plan:
            k = e.sec('.stack_sizes', d, type=1, flags=0x80, align=1)
            e.sec('.rela.stack_sizes' if rela else '.rel.stack_sizes', r, type=rt, flags=0x40, link='symtab', info=k, entsize=es)
    else:
        for i, (names, sz, t, off) in enumerate(plan):
            k = e.sec('.stack_sizes', le(off, w) + list(sz), type=1, flags=0x80, align=1)
            e.sec('.rela.stack_sizes' if rela else '.rel.stack_sizes', rel(i, 0, t), type=rt, flags=0x40, link='symtab', info=k, entsize=es)
    return e.build()


def ar(members):
    """GNU ar archive. members: [(name, content list)]"""
    out = list(b'!<arch>\n')
    table = b''
    heads = []
    for n, d in members:
        nb = n.encode()
        if len(nb) > 15:
            heads.append(b'/%d' % len(table))
            table += nb + b'/\n'
        else:
            heads.append(nb + b'/')
    def hdr(ident, size):
        return list(ident.ljust(16) + b'0'.ljust(12) + b'0'.ljust(6) + b'0'.ljust(6) + b'100644'.ljust(8) + str(size).encode().ljust(10) + b'`\n')
    if table:
        out += hdr(b'//', len(table)) + list(table)
        if len(out) % 2:
            out.append(10)
    for (n, d), h in zip(members, heads):
        while len(out) % 2:
            out.append(10)
        out += hdr(h, len(d)) + list(d)
    if len(out) % 2:
        out.append(10)
    return out
