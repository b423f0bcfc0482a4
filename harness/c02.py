from c01 import *


def oracle(c):
    if not c.ok:
        c.fail('the analysis fails: %s %s' % (c.rec.kind, c.rec.code))
        return
    g = c.graph()
    check_bounds(c, g, True, True)
    c.tag = ('%d cycles' % len(g.clusters)) if any(n.max is not None for n in g.nodes.values()) else 'no stack information at all'


def full(n, sizes, unknown, name, edges=None, **k):
    def gen(root):
        s = Scenario(root, name)
        graph_prog(s, n, edges if edges is not None else [(a, b) for a in range(n) for b in range(n)], sizes, unknown, **k)
        return s
    return gen


# 4 functions: two potential 2-cycles and everything between them
TWO = [(0, 1), (1, 0), (2, 3), (3, 2), (1, 2), (2, 2), (3, 1)]
RING = [(0, 1), (1, 2), (2, 3), (3, 0), (1, 0), (3, 3)]


def scenarios(tier):
    q = [
        dict(name='digraph3', gen=full(3, [14, 14, 14], (0,), 'g3'), oracle=oracle, reach=['0 cycles', '1 cycles', '2 cycles', '3 cycles']),
        dict(name='two-cycles', gen=full(4, [14] * 4, (3,), 'two', TWO), oracle=oracle, reach=['2 cycles']),
        dict(name='ring4', gen=full(4, [14] * 4, (2,), 'ring', RING), oracle=oracle),
    ]
    r3, r5, r12 = ring(3), ring(5), ring(12)
    two = [(i, (i + 1) % 4) for i in range(4)] + [(4 + i, 4 + (i + 1) % 4) for i in range(4)] + [(2, 5), (3, 8), (6, 9)]
    q += [dict(name='ring3-callees', gen=shape('r3', 6, r3[1][:3], free=r3[1][3:], unknown=(1, 5)), oracle=oracle, reach=['1 cycles']),
          dict(name='ring5-callees', gen=shape('r5', *r5, free=[(2, 0), (4, 4)], unknown=(3,)), oracle=oracle, reach=['1 cycles']),
          dict(name='ring12-callees', gen=shape('r12', *r12, unknown=(20,)), oracle=oracle, reach=['1 cycles']),
          dict(name='two-rings', gen=shape('tr', 10, two, free=[(9, 4), (0, 0)], unknown=(8,)), oracle=oracle, reach=['2 cycles'])]
    q += [dict(name='pointers', gen=pointers('pp', True), oracle=oracle, reach=['1 cycles']),
          dict(name='pointers-untyped', gen=pointers('pu', True, True), oracle=oracle, reach=['1 cycles'])]
    if tier == 'thorough':
        q += [dict(name='digraph3-all-unknown', gen=full(3, [35] * 3, (0, 1, 2), 'gu'), oracle=oracle),
              dict(name='digraph4-noself', gen=full(4, [7] * 4, (), 'g4', [(a, b) for a in range(4) for b in range(4) if a != b]), oracle=oracle)]
    return q


BOUNDS = 'every directed graph over 3 functions (self calls included) with recorded sizes < 2^14 and one function possibly unrecorded; two families over 4 functions with up to 7 optional calls; rings of 3, 4, 5 and 12 functions that each call one outside function, and two rings of 4, with every size < 2^7; cycles through calls through pointers of two signatures, with and without untyped symbols'
