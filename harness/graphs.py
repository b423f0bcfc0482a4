"""Oracles over the reported graph: the bounds of C01 and C02, clusters."""
import z3
from rec import *


def sccs(g):
    """Tarjan over the reported graph; returns (comp id per node, [sets], cyclic flags)"""
    succ = {i: [] for i in g.nodes}
    for a, b in g.edges: succ[a].append(b)
    reach = {}
    for i in g.nodes:
        seen, todo = set(), list(succ[i])
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            todo += succ[x]
        reach[i] = seen
    comp = {}
    sets = []
    for i in g.nodes:
        if i in comp: continue
        s = {i} | {j for j in reach[i] if i in reach[j]}
        for j in s: comp[j] = len(sets)
        sets.append(s)
    cyc = [any(i in reach[i] for i in s) for s in sets]
    return succ, reach, comp, sets, cyc


def zmax(es):
    r = es[0]
    for e in es[1:]: r = z3.If(z3.UGT(e, r), e, r)
    return r


ZERO = z3.BitVecVal(0, 64)


def loc0(n):
    return ZERO if n.local is None else n.local


def check_bounds(c, g, acyclic, cyclic):
    succ, reach, comp, sets, cyc = sccs(g)
    has = [n for n in g.nodes.values() if n.max is not None]
    if not has:
        # documented: with no stack information at all the bound analysis is skipped
        if c.T.get('has_info', True) is not False:
            c.fail('no bounds are reported', c.T.get('has_info', True))
        return
    for i, n in g.nodes.items():
        if n.max is None:
            c.fail('node %s has no bound' % show(n.name))
            return
    zero_cycle = {k: z3.And([z3.BoolVal(g.nodes[i].local is not None)] + ([g.nodes[i].local == 0 for i in s if g.nodes[i].local is not None])) for k, s in enumerate(sets)}
    for i, n in g.nodes.items():
        k = comp[i]
        nm = show(n.name)
        if not cyc[k]:
            if not acyclic: continue
            out = [g.nodes[j].max for j in succ[i]]
            if len(out) > 8:        # the same, in a form that is easier to decide: an upper bound of all, and one of them
                d = n.max - loc0(n)
                w = z3.And([z3.UGE(d, x) for x in out]), z3.Or([d == x for x in out])
                for x in w: c.require(x, 'max of %s is not its local usage plus the largest max of its callees' % nm)
            want = loc0(n) + (zmax(out) if out else ZERO)
            if len(out) <= 8: c.require(n.max == want, 'max of %s is not its local usage plus the largest max of its callees' % nm)
            R = {i} | reach[i]
            ex = [z3.BoolVal(all(g.nodes[j].local is not None for j in R))]
            for kk in {comp[j] for j in R}:
                if cyc[kk]: ex.append(zero_cycle_all(g, sets[kk]))
            want = z3.And(ex)
            c.require(want == z3.BoolVal(n.exact), 'bound of %s is %s' % (nm, 'exact although something reachable is unknown or recursive' if n.exact else 'a lower bound although everything reachable is known'))
        else:
            if not cyclic: continue
            s = sets[k]
            out = [g.nodes[j].max for a in s for j in succ[a] if j not in s]
            oex = [g.nodes[j].exact for a in s for j in succ[a] if j not in s]
            want = zmax([loc0(g.nodes[j]) for j in s]) + (zmax(out) if out else ZERO)
            c.require(n.max == want, 'max of recursive %s is wrong' % nm)
            want = z3.And(zero_cycle_all(g, s), z3.BoolVal(all(oex)))
            c.require(want == z3.BoolVal(n.exact), 'exactness of recursive %s is wrong' % nm)
    if cyclic:
        got = sorted(tuple(sorted(x[1])) for x in g.clusters)
        want = sorted(tuple(sorted(s)) for s, y in zip(sets, cyc) if y)
        c.require(got == want, 'the SCC clusters are not the sets of mutually recursive functions')


def zero_cycle_all(g, s):
    return z3.And([z3.BoolVal(all(g.nodes[j].local is not None for j in s))] + [g.nodes[j].local == 0 for j in s if g.nodes[j].local is not None])
