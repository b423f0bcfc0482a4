from c06 import pick, OTHER32, LINUX, B8
from c10 import eq
from prog import *
from rec import *
from runner import decide
import z3

T, F = z3.BoolVal(True), z3.BoolVal(False)
V = lambda x: z3.BitVecVal(x, 64)


def oracle(c):
    """truth: fns = [(path content, hash content | None, cond under which it carries that hash, shown cond, live cond)];
    a function without hash has the path in full; `suffix` content follows in either case"""
    t = c.T
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        return
    g = c.graph()
    D = lambda x: decide(c, x)
    fns = [f for f in t['fns'] if D(f['live'])]
    for f in fns:
        f['h'] = f['hash'] is not None and D(f['hashed'])
        f['full'] = cat(f['path'], '::', f['hash']) if f['hash'] is not None else f['path']
    left = list(g.nodes.values())
    for i, f in enumerate(fns):
        if not D(f['shown']): continue
        amb = f['h'] and any(D(eq(c, f['path'], o['path'])) for o in fns if o is not f and o['h'])
        want = c.rec.pin(f['full'] if amb or not f['h'] else f['path'])
        hit = [n for n in left if D(eq(c, n.name, want))]
        if not hit:
            short = c.rec.pin(f['path'])
            if [n for n in left if D(eq(c, n.name, short))]: c.fail('%s is shortened although %s' % (show(want), 'another function has the same path' if f['h'] else 'it carries no hash'))
            elif [n for n in left if D(eq(c, n.name, c.rec.pin(f['full'])))]: c.fail('%s is shown with its hash although no other function has that path' % show(want))
            else: c.fail('no node %s' % show(want))
            return
        left.remove(hit[0])
        c.require(hit[0].local is None if f['local'] is None else (hit[0].local == f['local'] if hit[0].local is not None else F), 'usage of %s' % show(want))
    for n in left: c.fail('unexpected node %s' % show(n.name))
    c.tag = 'ambiguous' if len(fns) > 1 and any(a is not b and a['h'] and b['h'] and D(eq(c, a['path'], b['path'])) for a in fns for b in fns) else 'unique'


def rust(path, h):
    """legacy mangling of path components (content) with a hash (content of 17 bytes)"""
    out = items('_ZN')
    for x in path: out += items('%d' % len(items(x))) + items(x)
    return out + items('%d' % len(items(h))) + items(h) + items('E')


def add(s, p, path, h, local, hashed=T, live=T, shown=T, suffix='', ir=None, where='fns'):
    f = Fn(cat(rust(path, h), suffix), stack=local, ir=[] if ir is None else ir, sig=('void', []))
    getattr(p, where).append(f)
    d = []
    for i, x in enumerate(path): d += (items('::') if i else []) + items(x)
    s.truth.setdefault('fns', []).append(dict(path=d, hash=items(h), hashed=hashed, live=live, shown=shown, local=None if local is None else V(local)))
    return f


H = 'h0123456789abcde'      # and one digit


def paths(name, target, extra=False):
    """three functions, the last letter of the path and one hash digit of one of them free"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        x = [s.var('x%d' % i, 2) for i in range(3)]
        d = s.var('d', 4)
        hx = z3.If(z3.ULT(d, 10), z3.ZeroExt(4, d) + 48, z3.ZeroExt(4, d) + 87)
        L = [cat('f', z3.ZeroExt(6, v) + 97) for v in x]
        add(s, p, ['app', L[0]], cat('h', '%015x' % 1, hx), 8)
        add(s, p, ['app', L[1]], 'h%016x' % 0x200, 16)
        add(s, p, ['app', L[2]], 'h%016x' % 0xf300, 24)
        p.fill(s)
        return s
    return gen


def hashchar(name, target, pos):
    """any byte in one place of the hash"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        b = s.var('b', 8)
        s.assume(z3.Or(b == 95, z3.And(z3.UGE(b, 48), z3.ULE(b, 57)), z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), z3.And(z3.UGE(b, 97), z3.ULE(b, 122))))
        s.assume(z3.Or(z3.ULT(b, 65), z3.UGT(b, 70)))      # rustc does not use A-F
        digit = z3.Or(z3.And(z3.UGE(b, 48), z3.ULE(b, 57)), z3.And(z3.UGE(b, 97), z3.ULE(b, 102)))
        h = items('h0123456789abcdef')
        h[pos] = b
        ok = b == 104 if pos == 0 else digit
        if pos == 0: s.assume(z3.Or(z3.ULT(b, 48), z3.UGT(b, 57)))     # a digit would belong to the length
        add(s, p, ['app', 'run'], h, 8, hashed=ok)
        add(s, p, ['app', 'other'], 'h%016x' % 0x200, 16)
        add(s, p, ['app', 'run2'], 'h%016x' % 0x300, None)
        p.fill(s)
        return s
    return gen


def b62(n):
    D = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    if n == 0: return '_'
    n -= 1
    o = ''
    while True:
        o = D[n % 62] + o
        n //= 62
        if not n: return o + '_'


def plain(name, target):
    """names without a hash: v0 mangling, C names, components that merely look like a hash"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k = s.var('k', 3)
        s.assume(z3.ULT(k, 6))
        names = ['handle_interrupts', 'handle_the_event_', 'h0123456789abcde_', 'a0123456789abcdef', 'hash_of_the_state', 'hunt_zealous_zoom']
        fn = pick(k, names)
        crate = 0x1234abcd
        p.fn(cat('_RNvCs', b62(crate - 1), '_3app17'.replace('_3', '3'), fn), stack=8, ir=[], sig=('void', []))
        s.truth['fns'] = [dict(path=cat('app[%x]::' % crate, fn), hash=None, live=T, shown=T, local=V(8))]
        for i, n in enumerate(['main', 'h0123456789abcdef', 'app.h0123456789abcdef']):
            p.fn(n, stack=16 + i, ir=[], sig=('void', []))
            s.truth['fns'].append(dict(path=items(n), hash=None, live=T, shown=T, local=V(16 + i)))
        # 15 and 17 digits
        add(s, p, ['app', 'long'], 'h0123456789abcdef0', 32, hashed=F)
        add(s, p, ['app', 'short'], 'h0123456789abcde', 40, hashed=F)
        p.fill(s)
        return s
    return gen


def undefined(name, target):
    """functions that are called but not linked count as well"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        x = [s.var('x%d' % i, 1) for i in range(3)]
        k = [s.var('k%d' % i, 1) for i in range(3)]
        L = [cat('f', z3.ZeroExt(8 - v.size(), v) + 97) for v in x]
        hs = ['h%016x' % (0x1000 * (i + 1)) for i in range(3)]
        ms = [rust(['app', L[i]], hs[i]) for i in range(3)]
        calls = [cat(z3.If(k[i] == 1, B8(99), B8(59)), 'all void @', ms[i + 1], '()') for i in range(2)]
        calls.append(cat(z3.If(k[2] == 1, B8(99), B8(59)), 'all void bitcast (void (i32)* @', ms[2], ' to void ()*)()'))
        add(s, p, ['app', L[0]], hs[0], 8, ir=calls)
        for i in (1, 2):
            p.undef.append(ms[i])
            p.extra_ir.append(cat('declare void @', ms[i], '()'))
            here = k[0] == 1 if i == 1 else z3.Or(k[1] == 1, k[2] == 1)
            s.truth['fns'].append(dict(path=cat('app::', L[i]), hash=items(hs[i]), hashed=T, live=here, shown=T, local=None))
        p.fill(s)
        return s
    return gen


def filtered(name, target):
    """functions outside of the selected part, dead functions, aliases"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target, start='main')
        x = [s.var('x%d' % i, 2 if i == 2 else 1) for i in range(4)]
        k = [s.var('k%d' % i, 1) for i in range(2)]
        al = s.var('al', 1)
        L = [cat('f', z3.ZeroExt(8 - v.size(), v) + 97) for v in x]
        hs = ['h%016x' % (0x1000 * (i + 1)) for i in range(4)]
        ms = [rust(['app', L[i]], hs[i]) for i in range(4)]
        p.fn('main', stack=4, ir=[cat(z3.If(k[0] == 1, B8(99), B8(59)), 'all void @', ms[0], '()'), cat(z3.If(k[1] == 1, B8(99), B8(59)), 'all void @', ms[1], '()')], sig=('void', []))
        s.truth['fns'] = [dict(path=items('main'), hash=None, live=T, shown=T, local=V(4))]
        add(s, p, ['app', L[0]], hs[0], 8, shown=k[0] == 1)
        add(s, p, ['app', L[1]], hs[1], 16, shown=k[1] == 1)
        add(s, p, ['app', L[2]], hs[2], 24, shown=F)
        add(s, p, ['app', L[3]], hs[3], 32, live=F, shown=F, where='dead')
        # another name of the first function, with the same path and another hash
        p.fns[1].aliases = [(cat(rust(['app', L[0]], 'h%016x' % 0x77)), z3.If(al == 1, B8(0x12), B8(0)))]
        p.fill(s)
        return s
    return gen


def suffixes(name, target):
    """suffixes added by LLVM: `.llvm.<n>` is dropped, others remain"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        x, d = s.var('x', 1), s.var('d', 4)
        L = cat('f', z3.ZeroExt(7, x) + 97)
        hx = z3.If(z3.ULT(d, 10), z3.ZeroExt(4, d) + 48, z3.ZeroExt(4, d) + 55)
        add(s, p, ['app', L], 'h%016x' % 0x11, 8, suffix=cat('.llvm.82', hx, '9'))
        add(s, p, ['app', 'fa'], 'h%016x' % 0x22, 16)
        f = add(s, p, ['app', 'fa'], 'h%016x' % 0x22, 24, suffix='.cold.1')
        t = s.truth['fns'].pop()
        s.truth['fns'].append(dict(path=items('app::fa::h%016x.cold.1' % 0x22), hash=None, live=T, shown=T, local=V(24)))
        p.fill(s)
        return s
    return gen


SHAPES = [['core', 'ptr', 'drop_in_place$LT$alloc..string..String$GT$'], ['_$LT$app..S$u20$as$u20$core..fmt..Debug$GT$', 'fmt'], ['app', 'main', '_$u7b$$u7b$closure$u7d$$u7d$'], ['app', '_$LT$impl$u20$app..T$u20$for$u20$$u5b$u8$u5d$$GT$', 'go'],
          ['a'], ['h'], ['app', 'h0123456789abcdef'], ['app', 'S$LT$T$GT$', 'new'], ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i']]
DEM = {'drop_in_place$LT$alloc..string..String$GT$': 'drop_in_place<alloc::string::String>', '_$LT$app..S$u20$as$u20$core..fmt..Debug$GT$': '<app::S as core::fmt::Debug>', '_$u7b$$u7b$closure$u7d$$u7d$': '{{closure}}',
       '_$LT$impl$u20$app..T$u20$for$u20$$u5b$u8$u5d$$GT$': '<impl app::T for [u8]>', 'S$LT$T$GT$': 'S<T>'}


def shapes(name, target):
    """paths of methods, closures, implementations: two functions of every shape, of which one may have another path"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        for i, sh in enumerate(SHAPES):
            x = s.var('x%d' % i, 1)
            for k in range(2):
                tail = cat(z3.If(x == 1, B8(122), B8(98)) if k else 'b')
                if '$' not in sh[-1]: path = sh[:-1] + [cat(sh[-1], tail)]
                elif sh[0][0] != '_': path = [cat('m', tail)] + sh
                else: path = sh
                add(s, p, path, 'h%015x%d' % (i + 1, k), 8 * (2 * i + k))
                f = s.truth['fns'][-1]
                d = []
                for j, y in enumerate(path): d += (items('::') if j else []) + items(DEM.get(y, y) if isinstance(y, str) else y)
                f['path'] = d
        p.fill(s)
        return s
    return gen


def crowd(name, target, n=30):
    """n functions of three paths, some of which vary; many others of unique ones"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        for i in range(n):
            v = s.var('v%d' % i, 2) if i in (0, n // 2, n - 1) else None
            l = cat('f', z3.ZeroExt(6, v) + 97) if v is not None else 'f' + ('abx'[i % 3] if i < n - 6 else 'g')
            if l == 'fx': l = 'fx%d' % i
            add(s, p, ['app', 'm', l], 'h%016x' % (0x9999 * i + 1), 8 * i)
        p.fill(s)
        return s
    return gen


def same(name, target):
    """functions whose symbols have the same name (local ones of different object files), next to each other or not"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        x = [s.var('x%d' % i, 2) for i in range(3)]
        for i in range(3):
            if i == 2: add(s, p, ['app', 'other'], 'h%016x' % 7, 8)
            f = add(s, p, ['app', cat('f', z3.ZeroExt(6, x[i]) + 97)], 'h%016x' % 5, None)
            if i: f.ir = None
        p.fill(s)
        return s
    return gen


def scenarios(tier):
    q = [
        dict(name='paths', gen=paths('pa', OTHER32), oracle=oracle, reach=['ambiguous', 'unique']),
        dict(name='same', gen=same('sa', OTHER32), oracle=oracle, reach=['ambiguous', 'unique']),
        dict(name='hash-h', gen=hashchar('h0', OTHER32, 0), oracle=oracle),
        dict(name='hash-first', gen=hashchar('h1', LINUX, 1), oracle=oracle),
        dict(name='hash-last', gen=hashchar('h2', OTHER32, 16), oracle=oracle),
        dict(name='plain', gen=plain('pl', OTHER32), oracle=oracle),
        dict(name='undefined', gen=undefined('un', OTHER32), oracle=oracle, reach=['ambiguous', 'unique']),
        dict(name='filtered', gen=filtered('fi', OTHER32), oracle=oracle, reach=['ambiguous', 'unique']),
        dict(name='shapes', gen=shapes('sh', OTHER32), oracle=oracle, reach=['ambiguous'], deadline=120),
        dict(name='crowd', gen=crowd('cr', LINUX), oracle=oracle, reach=['ambiguous']),
        dict(name='suffixes', gen=suffixes('su', LINUX), oracle=oracle, reach=['ambiguous', 'unique']),
    ]
    if tier == 'thorough':
        q += [dict(name='hash-%d' % i, gen=hashchar('hh%d' % i, OTHER32, i), oracle=oracle) for i in range(2, 16)]
    return q


BOUNDS = 'three functions of four possible paths with a free hash digit; any printable byte in the first two and the last place of the hash; six 17 letter names in v0 mangling, C names, 15 and 17 digit components; three functions of the same symbol names or not; two undefined functions; two functions of each of nine shapes of path (methods, closures, implementations); 30 functions of a few paths; a filtered graph with a dead function and an alias; LLVM suffixes'
