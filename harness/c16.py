from c03 import edges_oracle, hwords
from c06 import pick, OTHER32, LINUX, B8
from prog import *
from rec import *
import thumb as Tb, z3

T, F = z3.BoolVal(True), z3.BoolVal(False)
ARMR = 'armv7r-none-eabi'
FAM = {'memcpy': ['memcpy', '__aeabi_memcpy', '__aeabi_memcpy4', '__aeabi_memcpy8'],
       'memmove': ['memmove', '__aeabi_memmove', '__aeabi_memmove4', '__aeabi_memmove8'],
       'memset': ['memset', '__aeabi_memset', '__aeabi_memset4', '__aeabi_memset8', '__aeabi_memclr', '__aeabi_memclr4', '__aeabi_memclr8']}
ALL = [n for f in FAM.values() for n in f]
CALLS = {'memcpy': ['call void @llvm.memcpy.p0i8.p0i8.i32(i8* align 4 %a, i8* align 4 %b, i32 16, i1 false)', 'tail call void @llvm.memcpy.p0.p0.i64(ptr align 8 %a, ptr align 1 %b, i64 %n, i1 false)'],
         'memmove': ['call void @llvm.memmove.p0i8.p0i8.i32(i8* align 4 %a, i8* %b, i32 %n, i1 false)', 'tail call void @llvm.memmove.p0.p0.i64(ptr align 1 %a, ptr align 8 %b, i64 80, i1 false)'],
         'memset': ['call void @llvm.memset.p0i8.i32(i8* align 4 %a, i8 0, i32 64, i1 false)', 'tail call void @llvm.memset.p0.i64(ptr nonnull align 8 %a, i8 -1, i64 %n, i1 false)']}
IMPL = ['memcpy', 'memmove', 'memset']


def family(name, target, free, always=()):
    """the routines in `free` are linked or not; the caller uses one of the intrinsics"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k = s.var('k', 3)
        s.assume(z3.ULT(k, 6))
        there = {}
        for i, n in enumerate(ALL):
            if n in free:
                v = s.var('v%d' % i, 1)
                there[n] = v == 1
                nm = cat(z3.If(v == 1, B8(ord(n[0])), B8(120)), n[1:])
            elif n in always:
                there[n] = T
                nm = n
            else: continue
            f = p.fn(nm, stack=4 * i, where='builtins', declared=True, sig=('i8*', ['i8*', 'i8*', 'i32']))
        st = pick(k, [x for f in FAM for x in CALLS[f]])
        p.fn('c', stack=8, ir=[st + items(' #1')], sig=('void', ['i8*']))
        p.fn('d', stack=8, ir=['ret void'], sig=('void', ['i8*']))
        p.fill(s)
        kind = {f: z3.Or(k == 2 * i, k == 2 * i + 1) for i, f in enumerate(FAM)}
        s.truth['edges'] = {'c': {n: z3.And(kind[f], there[n]) for f in FAM for n in FAM[f] if n in there}, 'd': {}}
        return s
    return gen


def nm_byte(v, names, i):
    col = [ord(n[i]) if i < len(n) else 0 for n in names]
    if len(set(col)) == 1: return col[0]
    e = B8(col[0])
    for k, x in enumerate(col[1:], 1): e = z3.If(v == k, B8(x), e)
    return e


def name_of(v, names):
    """symbol name (content), terminated early for the shorter ones"""
    return [nm_byte(v, names, i) for i in range(max(map(len, names)))]


def aliased(name, target, ver=('', '', '')):
    """one routine is another name of `impl` (whose stack usage is recorded), one is imported"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k, u, o, d = s.var('k', 2), s.var('u', 2), s.var('o', 2), s.var('d', 1)
        s.assume(z3.ULT(k, 3), z3.ULT(u, 3), z3.ULT(o, 3), u != o)
        f = p.fn('impl', stack=40, ir=[], sig=('void', ['i8']))
        f.aliases = [(name_of(o, IMPL), 0x22)]
        p.undef.append(name_of(u, [n + x for n, x in zip(IMPL, ver)]))
        st = pick(k, [CALLS[x][1] for x in IMPL])
        p.fn('c', stack=8, ir=[st + items(' #1')], sig=('void', ['i8*']))
        # a plain call to the imported routine elsewhere must not matter
        e = p.fn('e', stack=8, ir=[pick(z3.If(d == 1, u, z3.BitVecVal(3, 2)), ['call void @memcpy() #2', 'call void @memmove() #2', 'call void @memset() #2', 'ret void ;']) + items(' #3')], sig=('void', ['i16']))
        p.fill(s)
        s.truth['edges'] = {'c': {'impl': k == o}, 'e': {}}
        for i, n in enumerate(IMPL):
            s.truth['edges']['c'][n] = z3.And(k == i, u == i)
            s.truth['edges']['e'][n] = z3.And(d == 1, u == i)
        return s
    return gen


def thumb(name, target):
    """machine code decides: the intrinsic in the IR may or may not have become a call"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k, b, call = s.var('k', 3), s.var('b', 2), s.var('call', 1)
        s.assume(z3.ULT(k, 6))
        fs = IMPL + ['__aeabi_memcpy4']
        for i, n in enumerate(fs): p.fn(n, stack=0, addr=p.base + 8 * i, where='builtins', declared=True, sig=('i8*', ['i8*', 'i8*', 'i32']))
        a = p.base + 0x40
        off = [Tb.bl(a + 2, p.base + 8 * i) for i in range(4)]
        code = []
        for j in range(4):
            e = B8(off[0][j])
            for i in range(1, 4): e = z3.If(b == i, B8(off[i][j]), e)
            code.append(z3.If(call == 1, e, B8([0x00, 0xbf, 0x00, 0xbf][j])))
        p.fn('c', stack=8, ir=[pick(k, [x for f in FAM for x in CALLS[f]]) + items(' #1')], sig=('void', ['i8*']), code=Tb.push(2) + code + [0x08, 0xbd], addr=a)
        p.fill(s)
        s.truth['edges'] = {'c': {n: z3.And(call == 1, b == i) for i, n in enumerate(fs)}}
        return s
    return gen


def suffix(name, target, n=3):
    """whatever types the intrinsic is overloaded for"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k = s.var('k', 2)
        s.assume(z3.ULT(k, 3))
        b = [s.var('b%d' % i, 8) for i in range(n)]
        for x in b: s.assume(z3.Or([x == ord(y) for y in 'pi0189_-$.aZ']))
        for x in IMPL + ['__aeabi_memset8', '__aeabi_memcpy4', '__aeabi_memmove']: p.fn(x, stack=4, where='builtins', declared=True, sig=('i8*', ['i8*', 'i8*', 'i32']))
        p.fn('c', stack=8, ir=[cat('call void @llvm.mem', pick(k, ['cpy.p', 'move.', 'set.p']), *b, '.i64(ptr %a, i8 0, i64 %n, i1 false) #1')], sig=('void', ['i8*']))
        p.fill(s)
        fam = {f: [x for x in IMPL + ['__aeabi_memset8', '__aeabi_memcpy4', '__aeabi_memmove'] if x in FAM[f]] for f in FAM}
        s.truth['edges'] = {'c': {x: k == i for i, f in enumerate(FAM) for x in fam[f]}}
        return s
    return gen


def callers(name, target, n=3):
    """several functions use the same intrinsics or others"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        ST = [CALLS['memcpy'][1], CALLS['memset'][1], CALLS['memmove'][1], '%r = load i32, ptr %a']
        for i, x in enumerate(IMPL): p.fn(x, stack=4 * i, where='builtins', declared=True, sig=('i8*', ['i8*', 'i8*', 'i32']))
        E = {}
        for i in range(n):
            v = s.var('v%d' % i, 2)
            p.fn('c%d' % i, stack=8, ir=[pick(v, ST) + items(' #1'), CALLS['memset'][0] if i == 1 else 'store i8 0, ptr %a'], sig=('void', ['i8*']))
            E['c%d' % i] = {'memcpy': v == 0, 'memset': T if i == 1 else v == 1, 'memmove': v == 2}
        p.fill(s)
        s.truth['edges'] = E
        return s
    return gen


def scenarios(tier):
    q = [
        dict(name='memcpy', gen=family('cp', ARMR, FAM['memcpy'] + ['memmove', 'memset']), oracle=edges_oracle, reach=['edges']),
        dict(name='memmove', gen=family('mv', OTHER32, FAM['memmove'] + ['memcpy', '__aeabi_memset4']), oracle=edges_oracle, reach=['edges']),
        dict(name='memset', gen=family('se', ARMR, FAM['memset']), oracle=edges_oracle, reach=['edges']),
        dict(name='all', gen=family('al', LINUX, ['memcpy'], ALL), oracle=edges_oracle, reach=['edges']),
        dict(name='callers', gen=callers('ca', OTHER32), oracle=edges_oracle, reach=['edges']),
        dict(name='suffix', gen=suffix('su', OTHER32), oracle=edges_oracle, reach=['edges']),
        dict(name='alias-versions', gen=aliased('av', LINUX, ('@GLIBC_2.14', '@@GLIBC_2.2.5', '@GLIBC_2.2.5')), oracle=edges_oracle, reach=['edges']),
        dict(name='alias', gen=aliased('as', LINUX), oracle=edges_oracle, reach=['edges']),
        dict(name='thumb', gen=thumb('th', 'thumbv7em-none-eabihf'), oracle=edges_oracle, reach=['edges']),
        dict(name='thumb6', gen=thumb('t6', 'thumbv6m-none-eabi'), oracle=edges_oracle, reach=['edges']),
    ]
    return q


BOUNDS = 'a call to each of the three intrinsics in typed and opaque pointer spelling, three free characters of the type suffix; three functions each with one of the intrinsics or none; any subset of 6 or 7 of the 15 library routines linked; one routine being another name of a function, one being imported (with or without a symbol version); on Thumb any of four routines or none called by the machine code'
