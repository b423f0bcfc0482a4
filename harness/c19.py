"""Local stack usage is what the compiler recorded."""
from c04 import local_oracle
from c06 import pick, opt, bit, B8, OTHER32, LINUX
from prog import *
from rec import *
import elf, z3

T, F = z3.BoolVal(True), z3.BoolVal(False)
ARMR, THUMB, V6 = 'armv7r-none-eabi', 'thumbv7em-none-eabihf', 'thumbv6m-none-eabi'
K = lambda v: z3.BitVecVal(v, 64)
Z = lambda v: z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v


def uleb_min(v, n):
    """a number of exactly n ULEB bytes, without padding"""
    return elf.uleb_sym(v, n), z3.Extract(7 * n - 1, 7 * (n - 1), v) != 0 if n > 1 else T


# ---- sizes
def sizes(name, target, widths, where=None, one_section=False, rela=False):
    """one function per width, each recorded with a number of that many ULEB bytes"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        loc = {}
        for i, w in enumerate(widths):
            n = 'f%d' % i
            if w is None:
                p.fn(n, ir=[])
                loc[n] = [(T, None)]
                continue
            v = s.var('v%d' % i, 7 * w)
            s.assume(uleb_min(v, w)[1] if not (where and i % 3 == 2) else T)      # every third one may be padded
            p.fn(n, stack=v, ir=[], where=(where or 'a' * len(widths))[i] == 'b' and 'builtins' or 'app')
            loc[n] = [(T, Z(v) if 7 * w <= 64 else z3.Extract(63, 0, v))]
        p.obj_kw = dict(one_section=one_section, rela=rela)
        p.fill(s)
        s.truth['local'] = loc
        return s
    return gen


# ---- which record belongs to which function
def object_perm(s, p, fns, perm, cls, thumb, vals, one_section=True, rela=False, extra=()):
    """records in any order: record i is about function perm[i] (z3 BV) and has the value vals[i]"""
    e = elf.Elf(cls, 1, {32: 40, 64: 62}[cls])
    w = cls // 8
    n = len(fns)
    if one_section:
        t = e.sec('.text', [0] * (4 * n), type=1, flags=6)
        ts = [t] * n
        sec0 = e.sym('', 0, 0, 0x03, t)
    else:
        ts = [e.sec('.text.%d' % i, [0] * 4, type=1, flags=6) for i in range(n)]
        secs = [e.sym('', 0, 0, 0x03, t) for t in ts]
    for i, f in enumerate(fns):
        for nm in (f if isinstance(f, tuple) else (f,)):
            e.sym(nm, (4 * i if one_section else 0) + (1 if thumb else 0), 4, 0x12, ts[i])
    d, r = [], []
    es = {(32, 0): 8, (32, 1): 12, (64, 0): 16, (64, 1): 24}[cls, int(rela)]
    for i in range(n):
        pw = z3.ZeroExt(8 * w - perm[i].size(), perm[i])
        sy = sec0 if one_section else None
        info = elf.le((sy << 8) | 2, 4) if one_section and cls == 32 else None
        if cls == 32:
            r += elf.le(len(d), 4)
            if one_section: r += elf.le((sy << 8) | 2, 4)
            else:
                x = z3.BitVecVal(secs[0], 32)
                for j in range(1, n): x = z3.If(perm[i] == j, z3.BitVecVal(secs[j], 32), x)
                r += elf.le((x << 8) | 2, 4)
            if rela: r += elf.le(0, 4)
        else:
            r += elf.le(len(d), 8)
            if one_section: r += elf.le((sy << 32) | 1, 8)
            else:
                x = z3.BitVecVal(secs[0], 64)
                for j in range(1, n): x = z3.If(perm[i] == j, z3.BitVecVal(secs[j], 64), x)
                r += elf.le((x << 32) | 1, 8)
            if rela: r += elf.le(0, 8)
        d += elf.le(pw * 4, w) if one_section else elf.le(0, w)
        d += elf.uleb_sym(vals[i], vals[i].size() // 7)
    k = e.sec('.stack_sizes', d, type=1, flags=0x80, align=1)
    e.sec('.rela.stack_sizes' if rela else '.rel.stack_sizes', r, type=4 if rela else 9, flags=0x40, link='symtab', info=k, entsize=es)
    return e.build()


def order(name, target, n, builtins=False, one_section=True, rela=False, names=None, alias=False):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        fns = names or ['f%d' % i for i in range(n)]
        for f in fns: p.fn(f, ir=[], where='builtins' if builtins else 'app', declared=builtins, aliases=[f + 'x'] if alias else [])
        p.fn('z', stack=40, ir=[])
        perm = [s.var('p%d' % i, 3) for i in range(n)]
        s.assume(*[a != b for i, a in enumerate(perm) for b in perm[:i]], *[z3.ULT(x, n) for x in perm])
        vals = [s.var('v%d' % i, 14) for i in range(n)]
        p.fill(s)
        ob = object_perm(s, p, [f + 'x' for f in fns] if alias else fns, perm, p.cls, thumb_target(target), vals, one_section, rela)
        if builtins:
            path = [f for f in s.files if f.endswith('.rlib')][0]
            s.add(path, elf.ar([('compiler_builtins-4f5e6d7c8b9a0123.compiler_builtins.1a2b3c4d-cgu.0.rcgu.o', ob)]))
        else:
            path = [f for f in s.files if f.endswith('.o')][0]
            s.add(path, ob)
        s.truth['local'] = {(f, f + 'x'): [(perm[i] == j, Z(vals[i])) for i in range(n)] for j, f in enumerate(fns)}
        if builtins: s.truth['local']['z'] = [(T, K(40))]
        return s
    return gen


# ---- the archive: several members, in any order, among others
def members(name, target, layout, post='.rcgu.o', pre='compiler_builtins-4f5e6d7c8b9a0123.compiler_builtins.1a2b3c4d-cgu.'):
    """layout: for each member the functions recorded in it (None: not an object file)"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        loc = {}
        mem = []
        for i, fs in enumerate(layout):
            if fs is None:
                b = [s.var('j%d%d' % (i, k), 8) for k in range(2)]
                mem.append(('lib.rmeta' if i % 2 == 0 else 'lib%d.txt' % i, b + [0x7f, 0x45, 0x4c]))
                continue
            rs = []
            for f in fs:
                v = s.var('v' + f, 14)
                loc[f] = [(T, Z(v))]
                rs.append((f, elf.uleb_sym(v, 2)))
            mem.append(('%s%d%s' % (pre, i, post), elf.stack_object(rs, p.cls, 40 if p.cls == 32 else 62, thumb=thumb_target(target))))
        for f in loc: p.fn(f, ir=[], declared=True, where='builtins')
        v = s.var('vm', 14)
        p.fn('main', stack=v, ir=[])
        loc['main'] = [(T, Z(v))]
        p.fn('noone', ir=[])
        if not thumb_target(target): loc['noone'] = [(T, None)]
        p.fill(s)
        path = [f for f in s.files if f.endswith('.rlib')][0]
        s.add(path, elf.ar(mem))
        s.truth['local'] = loc
        return s
    return gen


def both(name, target):
    """recorded in the application and in the archive: the linker takes the application's"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        a, b, c, w = s.var('a', 14), s.var('b', 14), s.var('c', 14), s.var('w', 1)
        p.fn('memcpy', stack=a, ir=[], sig=('ptr', ['ptr', 'ptr', 'i32']))
        p.fn('memset', where='builtins', declared=True, sig=('ptr', ['ptr', 'i32', 'i32']))
        p.fill(s)
        path = [f for f in s.files if f.endswith('.rlib')][0]
        s.add(path, elf.ar([('compiler_builtins-4f5e6d7c8b9a0123.compiler_builtins.1a2b3c4d-cgu.0.rcgu.o', elf.stack_object([(cat('memcp', z3.If(w == 1, B8(121), B8(122))), elf.uleb_sym(b, 2)), ('memset', elf.uleb_sym(c, 2))], p.cls, 40 if p.cls == 32 else 62, thumb=False))]))
        s.truth['local'] = {'memcpy': [(T, Z(a))], 'memset': [(T, Z(c))]}
        return s
    return gen


# ---- names
def similar(name, target, n):
    """records are looked up by the whole name: two functions differ in the first n bytes of their names only, one is recorded"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        b, k = s.var('b', 8), s.var('k', 2)
        ok = lambda x: z3.Or(z3.And(z3.UGE(x, 97), z3.ULE(x, 122)), z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), z3.And(z3.UGE(x, 48), z3.ULE(x, 57)), x == 95, x == 46, x == 36)
        s.assume(ok(b))
        v = s.var('v', 14)
        base = 'abcd'
        t = [ord(x) for x in base]
        t = [z3.If(k == i, b, B8(x)) for i, x in enumerate(t)]
        same = z3.And([x == ord(y) for x, y in zip(t, base)])
        f = p.fn(base, stack=v, ir=[])
        f.rec_name = t
        p.fn('abc', stack=3, ir=[])
        p.fn('bcd', stack=5, ir=[])
        p.fill(s)
        s.assume(z3.Not(z3.And([x == ord(y) for x, y in zip(t, 'abc' + 'x')])))
        s.truth['local'] = {base: [(same, Z(v)), (z3.Not(same), None)], 'abc': [(T, K(3))], 'bcd': [(T, K(5))]}
        return s
    return gen


# ---- functions with several names
def aliases(name, target):
    """the object file records one function of several names, in the executable two functions have several"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        a, b, v, w = s.var('a', 8), s.var('b', 8), s.var('v', 14), s.var('w', 14)
        r = lambda x: z3.And(z3.UGE(x, 97), z3.ULE(x, 99))
        s.assume(r(a), r(b))
        f = p.fn('fa', stack=v, ir=[], aliases=[('fb', 0x12), ('fc', 0x22)])
        f.rec_name = cat('f', a)
        g = p.fn('ga', ir=[], declared=True, stack=w, aliases=[('gb', 0x22), ('gc', 0x02)], where='builtins')
        g.rec_name = cat('g', b)
        p.fn('z', stack=16, ir=[])
        p.fill(s)
        s.truth.update(v=v, w=w)
        return s
    return gen


def alias_oracle(c):
    if not c.ok: return
    g = c.graph()
    for x, v in (('f', c.T['v']), ('g', c.T['w'])):
        ns = [n for n in g.nodes.values() if show(n.name) in (x + 'a', x + 'b', x + 'c')]
        c.require(len(ns) == 1, 'the function is not shown once')
        if ns: c.require(ns[0].local == Z(v) if ns[0].local is not None else F, 'local usage is wrong')


# ---- on Thumb the machine code agrees
def agree(name, target, n):
    def gen(root):
        import thumb as Tb
        s = Scenario(root, name)
        p = Program(target)
        loc = {}
        k = s.var('k', 8)
        rec = s.var('rec', 1)
        # push {<one to eight registers>}: bits of the list are free
        cnt = sum([z3.ZeroExt(6, z3.Extract(i, i, k)) for i in range(8)][1:], z3.ZeroExt(6, z3.Extract(0, 0, k)))
        s.assume(k != 0)
        v = z3.simplify(cnt * 4)
        f = p.fn('f', stack=z3.Concat(z3.BitVecVal(0, 7), v), code=[k, 0xb5 - 1, k, 0xbc, 0x70, 0x47], ir=[])
        f.rec_name = cat(z3.If(rec == 1, B8(102), B8(113)))
        p.fn('h', stack=8, code=Tb.push(2) + [0x03, 0xbc, 0x70, 0x47], ir=[])
        p.fill(s)
        s.truth['local'] = {'f': [(T, z3.ZeroExt(57, v))], 'h': [(T, K(8))]}
        return s
    return gen


def scenarios(tier):
    R = dict(oracle=local_oracle)
    q = [
        dict(name='sizes', gen=sizes('s1', OTHER32, [1, 2, 3, None]), reach=['unknown'], **R),
        dict(name='sizes-long', gen=sizes('s2', LINUX, [5, 4, None, 9], rela=True), **R),
        dict(name='sizes-max', gen=sizes('s3', ARMR, [9, 1]), reach=['known'], **R),
        dict(name='sizes-builtins', gen=sizes('s4', LINUX, [2, 1, 3, 2, 5], where='ababb'), **R),
        dict(name='sizes-section', gen=sizes('s5', ARMR, [2, 1, 3, 5], one_section=True), **R),
        dict(name='order', gen=order('o1', OTHER32, 4), **R),
        dict(name='order-sections', gen=order('o2', LINUX, 4, one_section=False, rela=True), **R),
        dict(name='order-alias', gen=order('o3', ARMR, 3, one_section=False, alias=True), **R),
        dict(name='order-builtins', gen=order('o4', OTHER32, 4, builtins=True, one_section=False), **R),
        dict(name='order-names', gen=order('o5', OTHER32, 4, names=['foo', 'foo1', 'fo', 'oo']), **R),
        dict(name='members', gen=members('m1', OTHER32, [['a0'], None, ['b0', 'b1'], [], ['d0']]), **R),
        dict(name='members-last', gen=members('m2', LINUX, [None, ['a0'], ['b0'], None, ['e0', 'e1'], None]), **R),
        dict(name='members-short', gen=members('m3', LINUX, [['a0'], ['b0'], None], pre='compiler_builtins-'), **R),
        dict(name='members-many', gen=members('m4', OTHER32, [['a0'], None] + [[]] * 38 + [['b0']] + [[]] * 210 + [['c0', 'c1'], None, ['d0']]), **R),
        dict(name='members-dot', gen=members('m5', OTHER32, [['a0'], ['b0'], None], pre='compiler_builtins.'), **R),
        dict(name='members-end', gen=members('m6', LINUX, [['a0'], ['b0'], None], pre='9f-compiler_builtins', post='.o'), **R),
        dict(name='both', gen=both('bo', LINUX), **R),
        dict(name='similar', gen=similar('si', OTHER32, 4), reach=[], **R),
        dict(name='aliases', gen=aliases('al', OTHER32), oracle=alias_oracle),
        dict(name='thumb', gen=agree('t7', THUMB, 4), reach=['known'], **R),
        dict(name='thumb6', gen=agree('t6', V6, 4), reach=['known'], **R),
    ]
    if tier == 'thorough':
        q += [dict(name='order-5', gen=order('o6', LINUX, 5, one_section=False, rela=True), **R), dict(name='order-6', gen=order('o7', OTHER32, 6), **R),
              dict(name='sizes-many', gen=sizes('s6', LINUX, [1, 2, 3, 4, 5, 6, 7, 8, 9], where='aabbaabba'), **R)]
    return q


BOUNDS = 'up to 5 functions (9 thorough) with recorded sizes of 1 to 9 ULEB bytes (63 bits), padded or not; every order of 4 records (6 thorough), in one section or one each, REL or RELA; archives with up to 254 members in six layouts, three kinds of member names; records in both files; function names that differ from the recorded one in any one byte; push of any register list on Thumb'
