from c01 import edge_line, OTHER32
from c06 import opt, pick, LINUX, B8
from prog import *
from rec import *
import z3

T, F = z3.BoolVal(True), z3.BoolVal(False)


def eq(c, a, b):
    """two texts are equal"""
    if len(a) != len(b): return F
    r = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y: return F
        else: r.append((B8(x) if isinstance(x, int) else x) == (B8(y) if isinstance(y, int) else y))
    return z3.simplify(z3.And(r)) if r else T


def names_oracle(c):
    """truth: want = [(name content, local (z3 64 | None), dashed, present condition)]; edges = {(i,j): cond}"""
    t = c.T
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        return
    g = c.graph()            # well-formedness: strict parser
    used = {}
    for i, (nm, local, dashed, pres) in enumerate(t['want']):
        nm = c.rec.pin(nm)
        hit = [n for n in g.nodes.values() if n.id not in used and not z3.is_false(eq(c, n.name, nm))]
        # names are distinct under the assumptions of the scenario
        hit = [n for n in hit if c.rec.sat(eq(c, n.name, nm)) is not None]
        if not hit:
            c.require(z3.Not(pres), 'no node reads back as the name of function %d' % i)
            continue
        n = hit[0]
        c.require(pres, 'node of %d although it is not there' % i)
        c.require(eq(c, n.name, nm), 'the label of function %d does not read back as its name' % i)
        used[n.id] = i
        if local is None: c.require(n.local is None, 'unknown local usage is not shown as ?')
        elif isinstance(local, tuple):
            c.require(z3.BoolVal(n.local is not None) == local[0], 'local usage of %d is ? or not' % i)
            if n.local is not None: c.require(n.local == local[1], 'local usage of function %d' % i)
        elif n.local is None: c.fail('local usage of %d is not shown' % i)
        else: c.require(n.local == local, 'local usage of function %d' % i)
        c.require(n.dashed == dashed, 'dashing of node %d' % i)
        c.require(z3.BoolVal(n.max is not None) == t.get('info', T), 'node %d shows no bound' % i)
    if len(g.nodes) != len(used): c.fail('%d unexpected nodes' % (len(g.nodes) - len(used)))
    e = [(used.get(a), used.get(b)) for a, b in g.edges]
    if len(set(g.edges)) != len(g.edges): c.fail('repeated edge')
    for a, b in e:
        if (a, b) not in t['edges']: c.fail('unexpected edge %s' % ((a, b),))
    for (a, b), cond in t['edges'].items(): c.require(z3.BoolVal((a, b) in e) == cond, 'edge %d -> %d' % (a, b))
    if t.get('cycles') is not None:
        got = sorted(sorted(used.get(x, -1) for x in cl[1]) for cl in g.clusters)
        c.require(z3.BoolVal(got == [t['cycles'][0]]) == t['cycles'][1], 'cluster')
        if len({cl[0] for cl in g.clusters}) != len(g.clusters): c.fail('two clusters of one name')
    c.tag = 'graph'


V = lambda x: z3.BitVecVal(x, 64)


def utf8(b):
    """constraints on a list of 1..4 byte expressions to be one UTF-8 sequence of that length"""
    n = len(b)
    cont = [z3.And(z3.UGE(x, 0x80), z3.ULE(x, 0xbf)) for x in b[1:]]
    if n == 1: return z3.And(z3.UGE(b[0], 1), z3.ULT(b[0], 0x80))
    if n == 2: return z3.And(z3.UGE(b[0], 0xc2), z3.ULE(b[0], 0xdf), *cont)
    if n == 3: return z3.And(z3.UGE(b[0], 0xe1), z3.ULE(b[0], 0xec), *cont)
    return z3.And(z3.UGE(b[0], 0xf1), z3.ULE(b[0], 0xf3), *cont)


# ---- a symbol with free bytes
def symbols(name, target, where, n):
    def gen(root):
        s = Scenario(root, name)
        b = [s.var('b%d' % i, 8) for i in range(n)]
        if where == 'two':
            for x in b: s.assume(z3.Or([x == ord(y) for y in '"\\nN{}[]$%&<>;a \t\n']))
            nm = cat('k', b[0], b[1], 'm')
        elif where == 'multi':
            s.assume(z3.And(utf8(b), *[z3.Or([x == y for y in (0x80, 0xbf, 0xa7, 0xa2, 0x9c, b0)]) for x, b0 in zip(b[1:], (0x8a, 0x92, 0xb4))]))
            s.assume(z3.Or([b[0] == y for y in {2: (0xc2, 0xc3, 0xdf), 3: (0xe2, 0xe5, 0xec), 4: (0xf1, 0xf3)}[n]]))
            nm = cat('k', *(b + ['m']))
        else:
            s.assume(utf8(b))
            nm = {'start': cat(b[0], 'zz'), 'mid': cat('z', b[0], 'z'), 'end': cat('zz', b[0])}[where]
        p = Program(target)
        p.fn(nm, stack=8)
        p.fn('other', stack=16, ir=['call void @last()'])
        p.fn('last', stack=None)
        p.fill(s)
        s.truth['want'] = [(nm, V(8), False, T), (items('other'), V(16), False, T), (items('last'), None, False, T)]
        s.truth['edges'] = {(1, 2): T}
        return s
    return gen


# ---- type names in the label of a pointer call
def types(name, target):
    def gen(root):
        s = Scenario(root, name)
        b = [s.var('b%d' % i, 8) for i in range(1)]
        k = s.var('k', 1)
        s.assume(z3.And(z3.UGE(b[0], 32), z3.ULT(b[0], 127), b[0] != 34))
        ty = cat('%"a::S<', b[0], '>', '"')
        p = Program(target)
        p.fn('f', stack=8, ir=[], sig=('void', [ty + items('*'), 'i32']))
        p.fn('g', stack=16, ir=[opt(k, 'call void @f()', ';all void @f()')], sig=('i1', [ty + items(' (i8)*')]))
        p.fn('c', stack=4, ir=[cat('call void %x(', ty, '* %y, i32 0)'), cat('%r = call i1 %z(', ty, ' (i8)* null)')], sig=('void', []))
        p.fill(s)
        s.truth['want'] = [(items('f'), V(8), False, T), (items('g'), V(16), False, T), (items('c'), V(4), False, T),
                           (cat('void (', ty, '*, i32)*'), V(0), True, T), (cat('i1 (', ty, ' (i8)*)*'), V(0), True, T)]
        s.truth['edges'] = {(2, 3): T, (2, 4): T, (3, 0): T, (4, 1): T, (1, 0): k == 1}
        return s
    return gen


# ---- mangled names: what the label shows is the demangled path
SEQ = [('$LT$', '<'), ('$GT$', '>'), ('$RF$', '&'), ('$BP$', '*'), ('$LP$', '('), ('$RP$', ')'), ('$C$', ','), ('$u20$', ' '), ('$u27$', "'"), ('$u5b$', '['), ('$u5d$', ']'), ('$u7b$', '{'), ('$u7d$', '}'), ('$u3b$', ';'), ('$u2b$', '+'), ('$u22$', '"')]


def mangled(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        v = s.var('v', 2)
        want = []
        # all sequences; a free pick among four functions shows one of two paths
        for i, (m, x) in enumerate(SEQ):
            nm = '_ZN3app%d_%sx17h%016xE' % (len(m) + 2, m, 0x1000 + i)
            p.fn(nm, stack=8 * i)
            want.append((items('app::%sx' % x), V(8 * i), False, T))
        p.fn(cat('_ZN3app2a', z3.ZeroExt(6, v) + 97, '17h0123456789abcdefE'), stack=4)
        want.append((cat('app::a', z3.ZeroExt(6, v) + 97), V(4), False, T))
        p.fn('_ZN4core3ptr42drop_in_place$LT$alloc..string..String$GT$17h00112233445566ffE', stack=12)
        want.append((items('core::ptr::drop_in_place<alloc::string::String>'), V(12), False, T))
        p.fill(s)
        s.truth['want'], s.truth['edges'] = want, {}
        return s
    return gen


# ---- structure: duplicates, clusters, unknown nodes
def structure(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k = [s.var('k%d' % i, 1) for i in range(6)]
        st = [s.var('s%d' % i, 21) for i in range(2)]
        on = lambda v, text: cat(z3.If(v == 1, B8(ord(text[0])), B8(59)), text[1:])
        p.fn('a', stack=st[0], ir=[on(k[0], 'call void @b()'), on(k[1], 'call void @b()'), on(k[2], 'call void @ext()')], sig=('void', []))
        p.fn('b', stack=st[1], ir=[on(k[3], 'call void @a()'), on(k[4], 'call void %f(i8 1)'), on(k[4], 'call void %g(i8 2)'), on(k[5], 'call void %g(i8 3)')], sig=('void', []))
        p.fn('d', stack=None, ir=[], sig=('void', ['i8']))
        p.undef.append('ext')
        p.extra_ir.append('declare void @ext()')
        p.fill(s)
        X = lambda e: z3.ZeroExt(64 - e.size(), e)
        ab, ba, ext, ind = z3.Or(k[0] == 1, k[1] == 1), k[3] == 1, k[2] == 1, z3.Or(k[4] == 1, k[5] == 1)
        s.truth['want'] = [(items('a'), X(st[0]), False, T), (items('b'), X(st[1]), False, T), (items('d'), None, False, T), (items('ext'), None, False, ext), (items('void (i8)*'), V(0), True, ind)]
        s.truth['edges'] = {(0, 1): ab, (1, 0): ba, (0, 3): ext, (1, 4): ind, (4, 2): ind}
        s.truth['cycles'] = ([0, 1], z3.And(ab, ba))
        return s
    return gen


def bare(name, target):
    """no, one or two functions with recorded sizes"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k = [s.var('k%d' % i, 1) for i in range(4)]
        r = [s.var('r%d' % i, 1) for i in range(2)]
        on = lambda v, text: cat(z3.If(v == 1, B8(ord(text[0])), B8(59)), text[1:])
        a = p.fn('a', stack=300, ir=[on(k[0], 'call void @b()'), on(k[2], 'call void @ext()')], sig=('void', []))
        b = p.fn('b', stack=7, ir=[on(k[1], 'call void @a()'), on(k[3], 'call void %f(i8 1)')], sig=('void', []))
        for f, v, w in zip((a, b), r, 'xy'): f.rec_name = cat(z3.If(v == 1, B8(ord(f.name)), B8(ord(w))))
        p.fn('d', stack=None, ir=[], sig=('void', ['i8']))
        p.undef.append('ext')
        p.extra_ir.append('declare void @ext()')
        p.fill(s)
        ab, ba, ext, ind = [x == 1 for x in k]
        ba, ext = k[1] == 1, k[2] == 1
        s.truth['want'] = [(items('a'), (r[0] == 1, V(300)), False, T), (items('b'), (r[1] == 1, V(7)), False, T), (items('d'), None, False, T), (items('ext'), None, False, ext), (items('void (i8)*'), V(0), True, ind)]
        s.truth['edges'] = {(0, 1): ab, (1, 0): ba, (0, 3): ext, (1, 4): ind, (4, 2): ind}
        s.truth['info'] = z3.Or(r[0] == 1, r[1] == 1)
        return s
    return gen


def many(name, target, n=64):
    """more nodes, edges and clusters than fit in one digit"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k = {i: s.var('k%d' % i, 1) for i in (0, 9, 10, 11, n - 1)}
        on = lambda v, text: cat(z3.If(v == 1, B8(ord(text[0])), B8(59)), text[1:])
        E = {}
        for i in range(n):
            ir = []
            # rings of four; the rings are chained
            j = i - 3 if i % 4 == 3 else i + 1
            for d in {j, (i + 4) if i % 4 == 0 and i + 4 < n else j}:
                t = 'call void @fn%02d()' % d
                if i in k and d == j: ir.append(on(k[i], t)); E[i, d] = k[i] == 1
                else: ir.append(t); E[i, d] = T
            p.fn('fn%02d' % i, stack=i * 8 + 1, ir=ir)
        p.fill(s)
        s.truth['want'] = [(items('fn%02d' % i), V(8 * i + 1), False, T) for i in range(n)]
        s.truth['edges'] = E
        ring = lambda r: z3.And([E[i, i - 3 if i % 4 == 3 else i + 1] for i in range(4 * r, 4 * r + 4)])
        s.truth['rings'] = [(list(range(4 * r, 4 * r + 4)), z3.simplify(ring(r))) for r in range(n // 4)]
        return s
    return gen


def mixed(name, target, n=20, selfs=(1, 4, 22, 24, 25)):
    """one long ring, functions that call themselves inside and outside of it, and plain ones"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        total = n + 6
        kr, ks = s.var('kr', 1), {i: s.var('k%d' % i, 1) for i in selfs}
        on = lambda v, text: cat(z3.If(v == 1, B8(ord(text[0])), B8(59)), text[1:])
        E = {}
        for i in range(total):
            ir = []
            if i < n:
                d = (i + 1) % n
                t = 'call void @fn%02d()' % d
                if i == n - 1: ir.append(on(kr, t)); E[i, d] = kr == 1
                else: ir.append(t); E[i, d] = T
            elif i + 1 < total:
                ir.append('call void @fn%02d()' % (i + 1)); E[i, i + 1] = T
            if i in ks: ir.append(on(ks[i], 'call void @fn%02d()' % i)); E[i, i] = ks[i] == 1
            p.fn('fn%02d' % i, stack=i * 8 + 1, ir=ir)
        p.fill(s)
        s.truth['want'] = [(items('fn%02d' % i), V(8 * i + 1), False, T) for i in range(total)]
        s.truth['edges'] = E
        s.truth['rings'] = [(list(range(n)), kr == 1)] + [([i], z3.And(ks[i] == 1, z3.BoolVal(True) if i >= n else kr == 0)) for i in selfs]
        return s
    return gen


def many_oracle(c):
    names_oracle(c)
    if not c.ok: return
    g = c.graph()
    ix = {n.id: int(show(n.name)[2:]) for n in g.nodes.values()}
    got = [sorted(ix[x] for x in cl[1]) for cl in g.clusters]
    if len({cl[0] for cl in g.clusters}) != len(got): c.fail('two clusters of one name')
    for r, cond in c.T['rings']: c.require(z3.If(cond, 1, 0) == got.count(r), 'cluster of %s' % r)
    c.require(all(x in [r for r, q in c.T['rings']] for x in got), 'another cluster')


def scenarios(tier):
    q = [
        dict(name='bare', gen=bare('ba', LINUX), oracle=names_oracle, reach=['graph']),
        dict(name='many', gen=many('my', OTHER32), oracle=many_oracle, reach=['graph']),
        dict(name='mixed', gen=mixed('mx', LINUX), oracle=many_oracle, reach=['graph']),
        dict(name='byte-mid', gen=symbols('bm', OTHER32, 'mid', 1), oracle=names_oracle, reach=['graph']),
        dict(name='byte-end', gen=symbols('be', LINUX, 'end', 1), oracle=names_oracle, reach=['graph']),
        dict(name='byte-start', gen=symbols('bs', OTHER32, 'start', 1), oracle=names_oracle, reach=['graph']),
        dict(name='two-bytes', gen=symbols('b2', OTHER32, 'two', 2), oracle=names_oracle, reach=['graph']),
        dict(name='utf8-2', gen=symbols('u2', OTHER32, 'multi', 2), oracle=names_oracle, reach=['graph']),
        dict(name='utf8-3', gen=symbols('u3', OTHER32, 'multi', 3), oracle=names_oracle, reach=['graph']),
        dict(name='types', gen=types('ty', OTHER32), oracle=names_oracle, reach=['graph']),
        dict(name='mangled', gen=mangled('ma', OTHER32), oracle=names_oracle, reach=['graph']),
        dict(name='structure', gen=structure('st', OTHER32), oracle=names_oracle, reach=['graph']),
    ]
    if tier == 'thorough':
        q += [dict(name='utf8-4', gen=symbols('u4', OTHER32, 'multi', 4), oracle=names_oracle)]
    return q


BOUNDS = 'symbols with any ASCII byte in any of three places, every pair of 17 special characters, sampled lead and continuation bytes of 2 and 3 byte UTF-8 sequences; type names with any printable byte; the 16 legacy mangling escapes; graphs of 3 functions with cycles, undefined and pointer callees, with and without any recorded size; 64 functions in 16 cycles, 26 functions with one cycle of 20 and up to five that call themselves'
