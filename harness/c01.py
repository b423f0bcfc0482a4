from prog import *
from rec import *
from graphs import *
import z3

OTHER32 = 'riscv32imac-unknown-none-elf'


def edge_line(v, callee):
    """IR statement that calls `callee` iff v: otherwise the line is a comment"""
    return cat(z3.If(v == 1, z3.BitVecVal(99, 8), z3.BitVecVal(59, 8)), 'all void @%s()' % callee)


def graph_prog(s, n, edges, sizes, unknown=(), target=OTHER32, fmt=None, start=None, once=True):
    """n functions f0..; edges: pairs that may or may not exist; sizes: bits of the recorded sizes; unknown: functions that may lack a record"""
    p = Program(target, fmt=fmt, start=start)
    E = {}
    U = {}
    rows = {i: [] for i in range(n)}
    for a, b in edges:
        E[a, b] = s.var('e%d%d' % (a, b), 1)
        rows[a].append(edge_line(E[a, b], 'f%d' % b))
    L = []
    for i in range(n):
        st = s.var('s%d' % i, sizes[i]) if isinstance(sizes, (list, tuple)) and sizes[i] else (s.var('s%d' % i, sizes) if not isinstance(sizes, (list, tuple)) else None)
        f = p.fn('f%d' % i, stack=st, ir=rows[i])
        if i in unknown:
            U[i] = s.var('u%d' % i, 1)
            # recorded under another (dead) name when unknown
            f.rec_name = cat(z3.If(U[i] == 1, z3.BitVecVal(120, 8), z3.BitVecVal(102, 8)), str(i))
        L.append(st)
    p.fill(s)
    s.truth.update(E=E, U=U, L=L, n=n)
    s.truth['has_info'] = z3.Or([U[i] == 0 if i in U else z3.BoolVal(L[i] is not None) for i in range(n)])
    return p


def shape(name, n, fixed, free=(), bits=7, unknown=(), target=OTHER32, fmt=None, start=None):
    """larger graphs: the edges `fixed` and any of `free`; one more function `unknown` may lack its record"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target, fmt=fmt, start=start)
        E, U, L = {}, {}, []
        rows = {i: [] for i in range(n)}
        for a, b in fixed: rows[a].append('call void @f%d()' % b)
        for a, b in free:
            E[a, b] = s.var('e%d_%d' % (a, b), 1)
            rows[a].append(edge_line(E[a, b], 'f%d' % b))
        for i in range(n):
            st = s.var('s%d' % i, bits)
            f = p.fn('f%d' % i, stack=st, ir=rows[i])
            if i in unknown:
                U[i] = s.var('u%d' % i, 1)
                f.rec_name = cat(z3.If(U[i] == 1, z3.BitVecVal(120, 8), z3.BitVecVal(102, 8)), str(i))
            L.append(st)
        p.fill(s)
        s.truth.update(E=E, U=U, L=L, n=n, has_info=z3.BoolVal(True))
        return s
    return gen


def fan(n): return n + 1, [(0, i) for i in range(1, n + 1)]
def chain(n): return n, [(i, i + 1) for i in range(n - 1)]
def ladder(n): return 2 * n, [(2 * i + a, 2 * i + 2 + b) for i in range(n - 1) for a in (0, 1) for b in (0, 1)]
def ring(n, leaves=True): return (2 * n if leaves else n), [(i, (i + 1) % n) for i in range(n)] + ([(i, n + i) for i in range(n)] if leaves else [])


def dag(n, sizes, unknown, name, **k):
    def gen(root):
        s = Scenario(root, name)
        graph_prog(s, n, [(a, b) for a in range(n) for b in range(a + 1, n)], sizes, unknown, **k)
        return s
    return gen


def mixed(name):
    """acyclic callers above and below a cycle whose edges are symbolic"""
    def gen(root):
        s = Scenario(root, name)
        graph_prog(s, 4, [(0, 1), (1, 2), (2, 1), (2, 2), (2, 3), (0, 3)], [14, 14, 14, 14], (3,))
        return s
    return gen


def pointers(name, cyclic, untyped=False, target=OTHER32):
    """calls through pointers of two signatures (and, if asked for, cycles through them) between functions of any size"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        k = [0]
        def ind(ty):
            k[0] += 1
            v = s.var('p%d' % k[0], 1)
            return cat(z3.If(v == 1, z3.BitVecVal(99, 8), z3.BitVecVal(59, 8)), 'all void %%0(%s %%1)' % ty)
        def call(f):
            k[0] += 1
            return edge_line(s.var('d%d' % k[0], 1), f)
        B = lambda i: s.var('s%d' % i, 14)
        p.fn('top', stack=B(0), ir=[ind('i32'), 'call void %0(i64 %1)', 'call void @leaf()'])
        p.fn('a1', stack=B(1), ir=[], sig=('void', ['i32']))
        p.fn('a2', stack=B(2), ir=[call('top'), call('a2')] if cyclic else ['call void @leaf()'], sig=('void', ['i32']))
        p.fn('a3', stack=B(3), ir=[ind('i64')], sig=('void', ['i32']))
        p.fn('b1', stack=B(4), ir=[], sig=('void', ['i64']))
        p.fn('b2', stack=B(5), ir=[ind('i32') if cyclic else 'call void @leaf()'], sig=('void', ['i64']))
        f = p.fn('leaf', stack=B(6), ir=[])
        u = s.var('u', 1)
        f.rec_name = cat(z3.If(u == 1, z3.BitVecVal(120, 8), z3.BitVecVal(108, 8)), 'eaf')
        if untyped: p.fn('blob', stack=8)
        p.fill(s)
        s.truth['has_info'] = z3.BoolVal(True)
        return s
    return gen


def oracle(c):
    if not c.ok:
        c.fail('the analysis fails: %s %s' % (c.rec.kind, c.rec.code))
        return
    g = c.graph()
    check_bounds(c, g, True, False)
    e = {(c.rec and g.nm(a), g.nm(b)) for a, b in g.edges}
    c.tag = 'has bounds' if any(n.max is not None for n in g.nodes.values()) else 'no stack information at all'


def scenarios(tier):
    q = [
        dict(name='dag4', gen=dag(4, [14, 14, 14, 14], (0, 3), 'dag4'), oracle=oracle, reach=['has bounds']),
        dict(name='dag3-wide-sizes', gen=dag(3, [35, 35, 35], (1,), 'w'), oracle=oracle, reach=['has bounds']),
        dict(name='above-and-below-cycle', gen=mixed('m'), oracle=oracle, reach=['has bounds']),
    ]
    q += [dict(name='fan', gen=shape('fan', *fan(24), unknown=(7,)), oracle=oracle, reach=['has bounds']),
          dict(name='chain', gen=shape('chain', *chain(40), unknown=(39,), bits=14), oracle=oracle, reach=['has bounds']),
          dict(name='ladder', gen=shape('ladder', *ladder(10), free=[(0, 19), (3, 16)], unknown=(9,)), oracle=oracle, reach=['has bounds'])]
    q += [dict(name='pointers', gen=pointers('pt', False), oracle=oracle, reach=['has bounds']),
          dict(name='pointers-untyped', gen=pointers('pu', False, True), oracle=oracle, reach=['has bounds']),
          dict(name='pointers-cycle', gen=pointers('pc', True), oracle=oracle, reach=['has bounds'])]
    if tier == 'thorough':
        q += [dict(name='dag4-all-unknown', gen=dag(4, [14] * 4, (0, 1, 2, 3), 'x'), oracle=oracle),
              dict(name='dag5', gen=dag(5, [14] * 5, (4,), 'dag5'), oracle=oracle)]
    return q


BOUNDS = 'every call graph over 4 functions without cycles, recorded sizes < 2^14 (2^35 for 3 functions), any subset of two of them unrecorded; one family of cyclic graphs over 4 functions; a fan of 24 callees, a chain of 40 calls and a ladder of 10 levels with every size < 2^7 (2^14 for the chain); calls through pointers of two signatures to five functions, also recursive ones and with untyped symbols'
