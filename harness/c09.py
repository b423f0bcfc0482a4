from c01 import edge_line, OTHER32
from c06 import opt, pick, LINUX, B8
from graphs import check_bounds
from prog import *
from rec import *
import thumb as Tb, z3

T, F = z3.BoolVal(True), z3.BoolVal(False)


def reachable(n, E):
    """R[i][j]: j can be reached from i (itself included), as formulas over the edge conditions"""
    R = [[T if i == j else E.get((i, j), F) for j in range(n)] for i in range(n)]
    for k in range(n):
        R = [[z3.simplify(z3.Or(R[i][j], z3.And(R[i][k], R[k][j]))) for j in range(n)] for i in range(n)]
    return R


def oracle(c):
    """truth: names[i] (as shown), E[(i,j)], S[i]: start point selects i (none: whole graph), L[i], U[i]; dashed: {i}"""
    t = c.T
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        return
    g = c.graph()
    n, E, S = len(t['names']), t['E'], t['S']
    R = reachable(n, E)
    whole = z3.Not(z3.Or(S))
    vis = [z3.Or(whole, *[z3.And(S[i], R[i][j]) for i in range(n)]) for j in range(n)]
    ids = {}
    for x in g.nodes.values(): ids.setdefault(show(x.name), []).append(x)
    for j in range(n):
        ns = ids.get(t['names'][j], [])
        if len(ns) > 1:
            c.fail('%d nodes for %s' % (len(ns), t['names'][j]))
            continue
        c.require(vis[j] == z3.BoolVal(len(ns) == 1), '%s is %sreported' % (t['names'][j], 'not ' if not ns else ''))
        if ns:
            x = ns[0]
            u = t['U'].get(j, F)
            if x.local is None: c.require(u, 'local usage of %s is lost' % t['names'][j])
            else: c.require(z3.And(z3.Not(u), x.local == z3.ZeroExt(64 - t['L'][j].size(), t['L'][j])), 'local usage of %s is changed' % t['names'][j])
            c.require(z3.BoolVal(x.dashed) == z3.BoolVal(j in t.get('dashed', ())), 'dashing of %s' % t['names'][j])
    for k in ids:
        if k not in t['names']: c.fail('unexpected node %s' % k)
    e = g.edge_names()
    if len(set(e)) != len(e): c.fail('repeated edge')
    for i in range(n):
        for j in range(n):
            w = z3.And(vis[i], E.get((i, j), F))
            c.require(w == z3.BoolVal((t['names'][i], t['names'][j]) in e), 'edge %s -> %s' % (t['names'][i], t['names'][j]))
    c.flush()
    if not c.found: check_bounds(c, g, True, True)
    c.tag = 'whole' if len(g.nodes) == n else '%d nodes' % len(g.nodes)


# ---- every graph over n functions, every start
def exact(name, n, edges, target=OTHER32, unknown=()):
    def gen(root):
        s = Scenario(root, name)
        v = s.var('start', 3)
        s.assume(z3.ULE(v, n))
        p = Program(target, start=cat('f', z3.ZeroExt(5, v) + 48))
        E, L, U = {}, [], {}
        rows = {i: [] for i in range(n)}
        for a, b in edges:
            x = s.var('e%d%d' % (a, b), 1)
            E[a, b] = x == 1
            rows[a].append(edge_line(x, 'f%d' % b))
        for i in range(n):
            L.append(s.var('s%d' % i, 14))
            f = p.fn('f%d' % i, stack=L[i], ir=rows[i])
            if i in unknown:
                u = s.var('u%d' % i, 1)
                U[i] = u == 1
                f.rec_name = cat(z3.If(u == 1, B8(120), B8(102)), str(i))
        p.fill(s)
        s.truth.update(names=['f%d' % i for i in range(n)], E=E, S=[v == i for i in range(n)], L=L, U=U)
        return s
    return gen


def h(path, hash_, ):
    return '_ZN' + ''.join('%d%s' % (len(x), x) for x in path.split('::')) + '17h%sE' % hash_


# ---- start points given as paths
PATHS = ['app::run', 'app::run::hello', 'app::runner', 'app::run::hot', 'crate::app::run', 'main']
QUERIES = ['app::run', 'app::run::hello', 'app::runner', 'app::run::hot', 'app', 'run', 'app::ru', 'crate::app::run', 'app::run::h', 'main',
           'app::run::', 'app::run::h1111111111111111', h('app::run', '1111111111111111'), 'Main', '', 'hello']


def paths(name, target, dup):
    def gen(root):
        s = Scenario(root, name)
        q = s.var('q', 4)
        # the argument is one of the queries; different lengths need a separate scenario each: pick by prefix
        p = Program(target)
        n = len(PATHS)
        hs = ['1111111111111111', '2222222222222222', '3333333333333333', '4444444444444444', '5555555555555555']
        syms = [h(x, y) for x, y in zip(PATHS[:5], hs)] + ['main']
        p.start = QUERIES[dup]
        s.assume(q == 0)
        E = {(0, 1): T, (1, 2): T, (4, 5): T}
        on = [s.var('k%d' % i, 1) for i in range(3)]
        E = {(0, 1): on[0] == 1, (1, 2): on[1] == 1, (5, 0): on[2] == 1}
        L = []
        for i in range(n):
            rows = [edge_line(on[k], syms[j]) for k, (a, j) in enumerate([(0, 1), (1, 2), (5, 0)]) if a == i]
            L.append(z3.BitVecVal(8 * i + 8, 14))
            p.fn(syms[i], stack=8 * i + 8, ir=rows)
        p.fill(s)
        Q = QUERIES[dup]
        S = [F] * n
        for i in range(n):
            if Q == syms[i] or Q == PATHS[i]: S[i] = T
        s.truth.update(names=PATHS, E=E, S=S, L=L, U={})
        return s
    return gen


# ---- one byte of the argument is free
def path_bytes(name, target, sym):
    def gen(root):
        s = Scenario(root, name)
        b = s.var('b', 8)
        pos = s.var('pos', 2)
        s.assume(z3.And(z3.UGE(b, 33), z3.ULT(b, 127), b != ord('-')))
        P = ['aa::bb', 'aa::bc', 'ab::bb']
        syms = [h(x, '%016x' % (0xabc0 + i)) for i, x in enumerate(P)]
        q = list(b'aa::bb') if not sym else [ord(x) for x in syms[0]]
        at = {0: 1, 1: 2, 2: 4, 3: 5} if not sym else {0: 2, 1: 5, 2: 9, 3: len(q) - 2}
        q = [z3.If(pos == [k for k in at if at[k] == i][0], b, B8(x)) if i in at.values() else x for i, x in enumerate(q)]
        p = Program(target, start=q)
        L = []
        for i in range(3):
            L.append(z3.BitVecVal(8 * i + 8, 14))
            p.fn(syms[i], stack=8 * i + 8, ir=['call void @%s()' % syms[(i + 1) % 3]] if i == 0 else [])
        p.fill(s)
        full = lambda t: z3.And([(x == ord(y)) if not isinstance(x, int) else z3.BoolVal(x == ord(y)) for x, y in zip(q, t)])
        s.truth.update(names=P, E={(0, 1): T}, S=[z3.Or(full(P[i]) if not sym else F, full(syms[i]) if sym else F) for i in range(3)], L=L, U={})
        return s
    return gen


# ---- several functions with one path
def twins(name, target):
    def gen(root):
        s = Scenario(root, name)
        d = s.var('d', 8)
        w = s.var('w', 1)
        # the second function is a twin of the first one iff d is `b`
        s.assume(z3.Or([d == ord(x) for x in 'bcx']))
        s1 = h('aa::bb', '0123456789abcdef')
        s2 = cat('_ZN2aa2b', d, '17h1123456789abcdefE')
        L = [z3.BitVecVal(x, 14) for x in (8, 16, 24)]
        p = Program(target, start=pick(w, ['aa::bb', 'main  '][:1]) if False else 'aa::bb')
        p.fn(s1, stack=8, ir=['call void @main()'])
        p.fn(s2, stack=16, ir=[])
        p.fn('main', stack=24, ir=[])
        p.fill(s)
        s.truth.update(d=d)
        return s
    return gen


def twins_oracle(c):
    if not c.ok: return c.fail('the analysis fails')
    g = c.graph()
    n = sorted(show(x.name) for x in g.nodes.values())
    c.require((c.T['d'] == ord('b')) == z3.BoolVal(len(n) == 3), 'several matches must give the whole graph, one match the filtered graph: %s' % n)
    if len(n) != 3: c.require(n == ['aa::bb', 'main'], 'filtered graph is %s' % n)
    check_bounds(c, g, True, True)
    c.tag = 'whole' if len(n) == 3 else 'filtered'


# ---- local functions of different objects have one name; the local usages tell the functions apart
def same_names(name, target):
    def gen(root):
        s = Scenario(root, name)
        v = s.var('v', 3)
        Q = ['init', 'othr', 'leaf', 'main', 'lea2', 'none']
        s.assume(z3.ULT(v, len(Q)))
        p = Program(target, start=pick(v, Q))
        b = p.base
        k = s.var('k', 1)
        sel = [z3.simplify(z3.If(k == 1, B8(x), B8(y))) for x, y in zip(Tb.bl(b + 0x42, b + 0xc0), Tb.bl(b + 0x42, b + 0x100))]
        p.fn('main', code=Tb.sub_sp(4) + Tb.bl(b + 2, b + 0x40) + Tb.BX_LR, addr=b)
        p.fn('init', code=Tb.sub_sp(8) + sel + Tb.BX_LR, addr=b + 0x40)
        p.fn('init', code=Tb.sub_sp(16) + Tb.bl(b + 0x82, b + 0x100) + Tb.BX_LR, addr=b + 0x80, aliases=['othr'])
        p.fn('leaf', code=Tb.sub_sp(24) + Tb.BX_LR, addr=b + 0xc0)
        p.fn('lea2', code=Tb.sub_sp(32) + Tb.BX_LR, addr=b + 0x100)
        p.fill(s)
        s.truth['vis'] = {0: [4, 8, 16, 24, 32], 1: [16, 32], 2: [24], 3: ([4, 8, 24], [4, 8, 32]), 4: [32], 5: [4, 8, 16, 24, 32]}
        s.truth['v'], s.truth['k'] = v, k
        return s
    return gen


def same_names_oracle(c):
    if not c.ok: return c.fail('the analysis fails')
    g = c.graph()
    ls = [x.local for x in g.nodes.values() if show(x.name) != '?']
    for x in ls:
        if x is None or z3.is_expr(x) and not z3.is_bv_value(z3.simplify(x)): return c.fail('a local usage is not known')
    got = sorted(z3.simplify(x).as_long() if z3.is_expr(x) else x for x in ls)
    t = c.T
    for i, w in t['vis'].items():
        if isinstance(w, tuple): c.require(z3.And([z3.Implies(z3.And(t['v'] == i, t['k'] == 1 - j), z3.BoolVal(got == y)) for j, y in enumerate(w)]), 'the graph of main has the functions of %s bytes' % got)
        else: c.require(z3.Implies(t['v'] == i, z3.BoolVal(got == w)), 'start point %d: the graph has the functions of %s bytes' % (i, got))
    c.tag = 'whole' if len(got) == 5 else 'filtered'


# ---- the start point may be any name of the function; calls through pointers are followed
def aliased(name, target):
    def gen(root):
        s = Scenario(root, name)
        v = s.var('v', 2)
        k = s.var('k', 1)
        s.assume(z3.ULE(v, 3))
        p = Program(target, start=cat('al', z3.ZeroExt(6, v) + 48))
        p.fn('f0', stack=8, ir=['call void @f1()'], aliases=['al0'])
        p.fn('f1', stack=16, ir=[cat(opt(k, 'call void %x(i8 %0)', ';'), ' ;y')], aliases=[('al1', 0x10)], sig=('void', []))
        p.fn('f2', stack=24, ir=[], aliases=['al3', 'al4'], sig=('void', ['i8']))
        p.fn('f3', stack=32, ir=['call void @f2()'], sig=('void', ['i16']))
        p.fill(s)
        Z = lambda x: z3.BitVecVal(x, 14)
        K = k == 1
        s.truth.update(names=['f0', 'f1', 'f2', 'f3', 'void (i8)*'], E={(0, 1): T, (1, 4): K, (4, 2): T, (3, 2): T}, S=[v == 0, v == 1, v == 3, F, F], L=[Z(8), Z(16), Z(24), Z(32), Z(0)], U={}, dashed={4})
        s.truth['k'] = K
        return s
    return gen


def aliased_oracle(c):
    # without a call there is no node of the pointer type
    t = c.T
    if c.ok:
        full = dict(t)
        g = c.graph()
        if not any(x.dashed for x in g.nodes.values()):
            c.require(z3.Or(z3.Not(t['k']), t['S'][2]), 'the node of the called pointer type is missing')
            c.T = dict(t, names=t['names'][:4], S=t['S'][:4], L=t['L'][:4], E={(0, 1): T, (3, 2): T})
    oracle(c)
    c.T = t


def large(name, target):
    """26 functions with cycles, self calls, chains and undefined callees; every start point"""
    def gen(root):
        s = Scenario(root, name)
        n = 26
        v = s.var('start', 5)
        s.assume(z3.ULE(v, n))
        p = Program(target, start=cat('f', z3.ZeroExt(3, v) + 97))
        nm = ['f' + chr(97 + i) for i in range(n)]
        E, rows = {}, {i: [] for i in range(n)}
        for i in range(n):
            out = {i + 1, i + 5} if i % 6 != 5 else {i - 2, i}
            if i == 13: out |= set(range(14, 26))
            if i % 8 == 7: out.add(i)
            if i > 20: out = {i + 1} - {23}
            for d in sorted(x for x in out if 0 <= x < n):
                if (i, d) in ((2, 7), (11, 9), (13, 20)):
                    x = s.var('e%d_%d' % (i, d), 1)
                    E[i, d] = x == 1
                    rows[i].append(edge_line(x, nm[d]))
                else:
                    E[i, d] = T
                    rows[i].append('call void @%s()' % nm[d])
        L, U = [], {}
        for i in range(n):
            L.append(s.var('s%d' % i, 7) if i % 3 == 0 else z3.BitVecVal(i * i, 14))
            if i in (4, 22): U[i] = T
            p.fn(nm[i], stack=None if i in U else L[i], ir=rows[i])
        # undefined callee of fb and fy
        p.undef.append('xx')
        p.extra_ir.append('declare void @xx()')
        for i in (1, 24):
            p.fns[i].ir = p.fns[i].ir + ['call void @xx()']
            E[i, n] = T
        U[n] = T
        p.fill(s)
        s.truth.update(names=nm + ['xx'], E=E, S=[v == i for i in range(n)] + [F], L=L + [z3.BitVecVal(0, 14)], U=U)
        return s
    return gen


def scenarios(tier):
    D4 = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (2, 1)]
    q = [
        dict(name='digraph3', gen=exact('g3', 3, [(a, b) for a in range(3) for b in range(3) if (a, b) not in ((1, 1), (2, 2), (0, 0))], unknown=(2,)), oracle=oracle, reach=['whole', '1 nodes', '2 nodes']),
        dict(name='graph4', gen=exact('g4', 4, D4), oracle=oracle, reach=['whole', '1 nodes', '2 nodes', '3 nodes']),
        dict(name='large', gen=large('la', LINUX), oracle=oracle, reach=['whole']),
        dict(name='path-bytes', gen=path_bytes('pb', OTHER32, False), oracle=oracle, reach=['whole', '1 nodes', '2 nodes']),
        dict(name='symbol-bytes', gen=path_bytes('sb', OTHER32, True), oracle=oracle, reach=['whole', '2 nodes']),
        dict(name='same-names', gen=same_names('sn', 'thumbv7em-none-eabi'), oracle=same_names_oracle, reach=['whole', 'filtered']),
        dict(name='twins', gen=twins('tw', LINUX), oracle=twins_oracle, reach=['whole', 'filtered']),
        dict(name='aliased', gen=aliased('al', OTHER32), oracle=aliased_oracle, reach=['whole']),
    ]
    q += [dict(name='query-%d' % i, gen=paths('q%d' % i, OTHER32, i), oracle=oracle, validate=1) for i in range(len(QUERIES))]
    if tier == 'thorough':
        q += [dict(name='digraph3-self', gen=exact('gs', 3, [(a, b) for a in range(3) for b in range(3)], unknown=(0, 2)), oracle=oracle)]
    return q


BOUNDS = 'two functions of one name, one of them with another name, and six start points; every graph over 3 functions without self calls and a family over 4 functions with every start point (or none that exists); 16 start queries against 6 functions with nested paths; one free byte at any of four places of a path or of a symbol; aliases; 26 functions with every start point; one call through a pointer'
