from c01 import edge_line, OTHER32
from c06 import opt, pick, LINUX, B8
from graphs import zmax
from prog import *
from rec import *
import thumb as Tb, z3

T, F = z3.BoolVal(True), z3.BoolVal(False)
V = lambda x: z3.BitVecVal(x, 64)


def expected_max(n, adj, L):
    """largest stack need per node (unknown = 0), L: 64-bit expressions"""
    succ = {i: {b for a, b in adj if a == i} for i in range(n)}
    reach = {}
    for i in range(n):
        seen, todo = set(), list(succ[i])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += succ[x]
        reach[i] = seen
    memo = {}
    def mx(i):
        S = frozenset({i} | {j for j in reach[i] if i in reach[j]})
        if S not in memo:
            out = [mx(j) for a in S for j in succ[a] if j not in S]
            memo[S] = zmax([L[j] for j in S]) + (zmax(out) if out else V(0))
        return memo[S]
    return [mx(i) for i in range(n)]


def oracle(c):
    """truth: nodes = [(name, local 64 | None, present cond)], E = {(i, j): cond}"""
    t = c.T
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        return
    mx, rows = parse_top(c.rec.out, c.rec)
    nodes = t['nodes']
    here = []
    for i, (nm, l, pres) in enumerate(nodes):
        if c.rec.must(pres): here.append(i)
        elif not c.rec.must(z3.Not(pres)): raise RuntimeError('undecided node')
    left = list(range(len(rows)))
    for i in here:
        nm, l, _ = nodes[i]
        nm = c.rec.pin(nm if isinstance(nm, list) else items(nm))
        hit = [k for k in left if rows[k][1] == nm]
        # several nodes of one name (`?`): any assignment will do, they have equal usage
        if not hit:
            c.fail('%s is not listed' % show(nm))
            continue
        left.remove(hit[0])
        c.require(rows[hit[0]][0] == (l if l is not None else V(0)), 'usage of %s' % show(nm))
    if left: c.fail('%s listed although it is not a node, or twice' % show(rows[left[0]][1]))
    for a, b in zip(rows, rows[1:]): c.require(z3.UGE(a[0], b[0]), 'the listing is not in descending order')
    adj = set()
    for e, cond in t['E'].items():
        if e[0] not in here or e[1] not in here: continue
        if c.rec.must(cond): adj.add(e)
        elif not c.rec.must(z3.Not(cond)): raise RuntimeError('undecided edge')
    L = [V(0) if l is None else l for _, l, _ in nodes]
    want = zmax([m for i, m in enumerate(expected_max(len(nodes), adj, L)) if i in here])
    if mx is None: c.fail('no MAX line')
    else: c.require(mx == want, 'the MAX line is not the largest bound')
    c.tag = 'top'


def graph(name, n, edges, bits, unknown=(), target=OTHER32):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target, fmt='top')
        E, nodes = {}, []
        rows = {i: [] for i in range(n)}
        for a, b in edges:
            x = s.var('e%d%d' % (a, b), 1)
            E[a, b] = x == 1
            rows[a].append(edge_line(x, 'f%d' % b))
        for i in range(n):
            l = s.var('s%d' % i, bits)
            f = p.fn('f%d' % i, stack=l, ir=rows[i])
            l = z3.ZeroExt(64 - bits, l)
            if i in unknown:
                u = s.var('u%d' % i, 1)
                f.rec_name = cat(z3.If(u == 1, B8(120), B8(102)), str(i))
                l = z3.If(u == 1, V(0), l)
            nodes.append(('f%d' % i, l, T))
        p.fill(s)
        s.truth.update(nodes=nodes, E=E)
        return s
    return gen


def sorted5(name, n, bits):
    """many functions, no calls: the order"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(OTHER32, fmt='top')
        nodes = []
        for i in range(n):
            l = s.var('s%d' % i, bits)
            p.fn('fn_%d' % i, stack=l, ir=[])
            nodes.append(('fn_%d' % i, z3.ZeroExt(64 - bits, l), T))
        p.fill(s)
        s.truth.update(nodes=nodes, E={})
        return s
    return gen


def fict(name, target, sizes=True):
    """fictitious, undefined and unknown nodes are listed with usage 0; shortened names"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target, fmt='top')
        k = [s.var('k%d' % i, 1) for i in range(3)]
        d = s.var('d', 8)
        s.assume(z3.Or([d == ord(x) for x in 'bx']))
        st = s.var('s', 7)
        sz = lambda x: x if sizes else None
        lv = lambda x: x if sizes else V(0)
        on = lambda v, text: cat(z3.If(v == 1, B8(ord(text[0])), B8(59)), text[1:])
        p.fn('a', stack=sz(16), ir=[on(k[0], 'call void %f(i8 1)'), on(k[1], 'call void @ext()')], sig=('void', []))
        p.fn('_ZN3app1b17h0123456789abcdefE', stack=sz(st), ir=[], sig=('void', ['i8']))
        b2 = p.fn(cat('_ZN3app1', d, '17h0123456789abcd00E'), stack=sz(24), ir=[on(k[2], 'call void @a()')], sig=('i64', []))
        p.fn('nostack', stack=None, ir=[], sig=('i64', ['i8']))
        p.undef.append('ext')
        p.extra_ir.append('declare void @ext()')
        p.fill(s)
        tw = d == ord('b')
        l = lv(z3.ZeroExt(57, st))
        s.truth['nodes'] = [('a', lv(V(16)), T), ('app::b', l, z3.Not(tw)), ('app::x', lv(V(24)), z3.Not(tw)), ('app::b::h0123456789abcdef', l, tw), ('app::b::h0123456789abcd00', lv(V(24)), tw),
                            ('nostack', None, T), ('ext', None, k[1] == 1), ('void (i8)*', V(0), k[0] == 1)]
        s.truth['E'] = {(0, 7): k[0] == 1, (7, 1): T, (7, 3): T, (0, 6): k[1] == 1, (2, 0): k[2] == 1, (4, 0): k[2] == 1}
        return s
    return gen


def filtered(name, target):
    """with a start point, only its graph is listed"""
    def gen(root):
        s = Scenario(root, name)
        v = s.var('v', 2)
        p = Program(target, fmt='top', start=cat('f', z3.ZeroExt(6, v) + 48))
        k = [s.var('k%d' % i, 1) for i in range(3)]
        L = [s.var('s%d' % i, 14) for i in range(3)]
        p.fn('f0', stack=L[0], ir=[edge_line(k[0], 'f1')])
        p.fn('f1', stack=L[1], ir=[edge_line(k[1], 'f2'), edge_line(k[2], 'f1')])
        p.fn('f2', stack=L[2], ir=[])
        p.fill(s)
        K = [x == 1 for x in k]
        X = [z3.ZeroExt(50, x) for x in L]
        s.truth['nodes'] = [('f0', X[0], z3.Or(v == 0, v == 3)), ('f1', X[1], z3.Or(v == 1, v == 3, z3.And(v == 0, K[0]))), ('f2', X[2], z3.Or(v == 2, v == 3, z3.And(v == 1, K[1]), z3.And(v == 0, K[0], K[1])))]
        s.truth['E'] = {(0, 1): K[0], (1, 2): K[1], (1, 1): K[2]}
        return s
    return gen


def unknowns(name, n):
    """assembly functions that call pointers: each has a node for what it may call"""
    def gen(root):
        s = Scenario(root, name)
        p = Program('thumbv7m-none-eabi', fmt='top')
        k = [s.var('k%d' % i, 1) for i in range(n)]
        nodes, E = [], {}
        for i in range(n):
            on, off = Tb.BLX_R3, [0xc0, 0x46]
            p.fn('m%d' % i, code=Tb.push(i + 1) + [z3.If(k[i] == 1, B8(a), B8(b)) for a, b in zip(on, off)] + Tb.BX_LR)
            nodes.append(('m%d' % i, V(4 * i + 4), T))
        p.fn('z', code=Tb.BX_LR, ir=[], stack=0)
        nodes.append(('z', V(0), T))
        for i in range(n):
            nodes.append(('?', None, k[i] == 1))
            E[i, len(nodes) - 1] = k[i] == 1
        p.fill(s)
        s.truth.update(nodes=nodes, E=E)
        return s
    return gen


def crowd(name, n, target):
    """many functions, some of the same path or the same usage; one usage is free"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target, fmt='top')
        v = s.var('v', 7)
        e = s.var('e', 1)
        nodes, E = [], {}
        for i in range(n):
            l = v if i == n // 2 else (i * 37) % 50
            twin = i % 7 == 3
            nm = '_ZN3app1t17h%016xE' % i if twin else '_ZN3app3f%02d17h%016xE' % (i, i)
            ir = []
            if i % 5 == 4:
                t = 'call void @%s()' % p.fns[i - 2].name
                ir = [cat(z3.If(e == 1, B8(99), B8(59)), t[1:])]
                E[i, i - 2] = e == 1
            p.fn(nm, stack=l, ir=ir)
            nodes.append(('app::t::h%016x' % i if twin else 'app::f%02d' % i, z3.ZeroExt(57, v) if i == n // 2 else V(l), T))
        p.fill(s)
        s.truth.update(nodes=nodes, E=E)
        return s
    return gen


def scenarios(tier):
    q = [
        dict(name='dag3', gen=graph('d3', 3, [(0, 1), (0, 2), (1, 2)], 35, (1,)), oracle=oracle, reach=['top']),
        dict(name='cycles3', gen=graph('c3', 3, [(0, 1), (1, 0), (1, 2), (2, 2)], 14), oracle=oracle, reach=['top']),
        dict(name='order4', gen=sorted5('o4', 4, 28), oracle=oracle, reach=['top']),
        dict(name='fictitious', gen=fict('fi', OTHER32), oracle=oracle, reach=['top']),
        dict(name='no-sizes', gen=fict('ns', OTHER32, False), oracle=oracle, reach=['top']),
        dict(name='filtered', gen=filtered('fl', LINUX), oracle=oracle, reach=['top']),
        dict(name='unknowns', gen=unknowns('un', 4), oracle=oracle, reach=['top']),
        dict(name='crowd', gen=crowd('cr', 60, OTHER32), oracle=oracle, reach=['top']),
    ]
    if tier == 'thorough':
        q += [dict(name='order6', gen=sorted5('o6', 6, 63), oracle=oracle, reach=['top']), dict(name='dag4', gen=graph('d4', 4, [(a, b) for a in range(4) for b in range(a + 1, 4)], 14, (2,)), oracle=oracle)]
    return q


BOUNDS = 'every acyclic graph over 3 functions (sizes < 2^35, one possibly unrecorded), a family of cyclic graphs, every order of 4 sizes < 2^28, fictitious, undefined and hashed names (also without any recorded size), start points; four assembly functions each with or without pointer calls; 60 functions, one usage < 128 free'
