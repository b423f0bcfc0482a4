from c06 import pick, OTHER32, LINUX, B8
from prog import *
from rec import *
from runner import decide
import thumb as Tb, z3

T, F = z3.BoolVal(True), z3.BoolVal(False)
M7 = 'thumbv7m-none-eabi'


def oracle(c):
    """truth: syms = [(name, address expr | None (not in the executable), function symbol cond, mapping symbol cond)],
    rec = {name: [(cond, size)]}, calls = [(cond, caller name, callee name)], sigs = [(cond, name, label)],
    ptrs = [(cond, caller name, label)].  Names at one address are one function."""
    t = c.T
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        return
    g = c.graph()
    D = lambda x: decide(c, x)
    live = [(n, a, fn) for n, a, fn, mp in t['syms'] if a is not None and not D(mp)]
    groups = []
    for n, a, fn in live:
        for gr in groups:
            b = gr[0][1]
            if a is b or D(a == b):
                gr.append((n, a, fn))
                break
        else: groups.append([(n, a, fn)])
    groups = [gr for gr in groups if any(D(fn) for _, _, fn in gr)]
    where = {n: i for i, gr in enumerate(groups) for n, _, _ in gr}
    rec = {n: v for n, l in t['rec'].items() for cd, v in l if D(cd)}
    node, used = {}, set()
    for i, gr in enumerate(groups):
        names = [n for n, _, _ in gr]
        hits = [x for x in g.nodes.values() if show(x.name) in names]
        if len(hits) != 1:
            c.fail('%d nodes for the function %s' % (len(hits), '/'.join(names)))
            return
        x = hits[0]
        node[i] = x.id
        used.add(x.id)
        recs = [n for n in names if n in rec]
        if recs: c.require(show(x.name) in recs, 'the node of %s is not named after its recorded stack usage' % '/'.join(names))
        if not t.get('machine'):
            if not recs: c.require(x.local is None, '%s shows a usage although none is recorded' % names)
            elif x.local is None: c.fail('the usage recorded for %s is lost' % '/'.join(names))
            else: c.require(z3.Or([x.local == rec[n] for n in recs]), 'the usage of %s is wrong' % '/'.join(names))
        c.require(not x.dashed, '%s is dashed' % names)
    for i, m in t.get('machine', {}).items():
        if i in where: c.require(T if g.nodes[node[where[i]]].local is not None and z3.is_true(z3.simplify(g.nodes[node[where[i]]].local == m)) else F, 'usage of %s' % i)
    want = {}
    labels = {}
    for cd, f, l in t['ptrs']:
        if f in where and D(cd):
            labels.setdefault(l, set()).add(where[f])
    typed = set()
    callees = {l: set() for l in labels}
    for cd, f, l in t['sigs']:
        if f in where and D(cd):
            typed.add(where[f])
            if l in labels: callees[l].add(where[f])
    untyped = any(i not in typed for i in range(len(groups)))
    E = {(node[where[a]], node[where[b]]) for cd, a, b in t['calls'] if a in where and b in where and D(cd)}
    for l, frm in labels.items():
        hits = [x for x in g.nodes.values() if x.dashed and show(x.name) == l]
        if len(hits) != 1:
            c.fail('%d nodes for pointers of type %s' % (len(hits), l))
            return
        used.add(hits[0].id)
        E |= {(node[f], hits[0].id) for f in frm} | {(hits[0].id, node[f]) for f in callees[l]}
        q = [b for a, b in g.edges if a == hits[0].id and show(g.nodes[b].name) == '?']
        c.require(len(q) == (1 if untyped else 0), 'pointer calls %s reach unknown functions' % ('do not' if untyped else 'falsely'))
        E |= {(hits[0].id, b) for b in q}
        used |= set(q)
    G = set(g.edges)
    if len(G) != len(g.edges): c.fail('repeated edge')
    nm = lambda e: '%s -> %s' % (g.nm(e[0]), g.nm(e[1]))
    for e in E - G: c.fail('edge %s is missing' % nm(e))
    for e in G - E: c.fail('unexpected edge %s' % nm(e))
    for x in set(g.nodes) - used: c.fail('unexpected node %s' % g.nm(x))
    c.tag = 'merged' if any(len(gr) > 1 for gr in groups) else 'distinct'


V = lambda x: z3.BitVecVal(x, 64)
A = lambda x: z3.BitVecVal(x, 32)


def setup(target, kinds='none'):
    p = Program(target)
    g = p.fn('g', stack=0 if thumb_target(target) else 16, ir=[])
    return p, g


def is3(v, k): return v == k


def aliases(name, target, free):
    """F is known as fa, fb and fc; each piece of information uses one of the names (or an unrelated one)"""
    names = ['fa', 'fb', 'fc']
    def gen(root):
        s = Scenario(root, name)
        th = thumb_target(target)
        p, g = setup(target)
        var = lambda n, w, d: s.var(n, w) if n in free else z3.BitVecVal(d, w)
        rec, de, dc, ca, dc2 = var('rec', 2, 0), var('def', 2, 1), var('dec', 2, 2), var('call', 2, 0), var('dec2', 2, 3)
        ty = [var('ty%d' % i, 1, 1) for i in range(3)]     # 1: function symbol
        tb = [var('th%d' % i, 1, 1) for i in range(3)]     # Thumb bit
        s.assume(ca != 3)
        s.assume(z3.Or(de != 3, dc != 3))
        s.assume(z3.Or(de != dc, de == 3), z3.Or(de != dc2, de == 3), z3.Or(dc2 == 3, dc2 != dc))
        s.assume(z3.Or([x == 1 for x in ty]))
        pn = lambda v: pick(v, names + ['zz'])
        f = p.fn('fa', ir=[])
        p.fns.remove(f)
        a = p.base + 0x40
        z = p.fn('@', code=Tb.BX_LR if th else [0] * 4, addr=a, stack=None)       # only its code
        p.fns.remove(z)
        bl = Tb.bl(p.base + 0x82, a) if th else []
        f = Fn(pn(rec), stack=0 if th else 24, ir=['call void @g()'], sig=('void', ['i32']))
        f.ir_name = pn(de)
        if th: f.code = Tb.push(2) + Tb.bl(a + 2, p.base) + [0x08, 0xbd]
        if th: f.stack = 8
        f.addr = a
        c = p.fn('c', stack=8 if th else 8, ir=[cat('call void @', pn(ca), '(i32 0)'), 'call void %p(i32 0)', 'call void %q(i8 0)', 'call void %r(i16 0)'], addr=p.base + 0x80,
                 code=(Tb.push(2) + bl + [0x08, 0xbd]) if th else None)
        p.extra_ir += [cat('declare void @', pn(dc), '(i8)'), cat('declare void @', pn(dc2), '(i16) unnamed_addr #0')]
        # symbols: written by hand
        for i in range(3):
            v = A(a) | z3.ZeroExt(31, tb[i]) if th else A(a)
            p.extra_syms.append((names[i], z3.simplify(v) if p.cls == 32 else z3.ZeroExt(32, v), len(f.code), z3.If(ty[i] == 1, B8(0x12), B8(0x10)), 1))
        text = f.code
        h = Hidden(f)
        p.fns.append(h)
        p.fill(s)
        s.truth['syms'] = [(n, A(a), ty[i] == 1, F) for i, n in enumerate(names)] + [('zz', None, F, F), ('g', A(p.base), T, F), ('c', A(p.base + 0x80), T, F)]
        s.truth['rec'] = {n: [(rec == i, V(f.stack))] for i, n in enumerate(names)}
        s.truth['rec'].update({'g': [(T, V(g.stack))], 'c': [(T, V(c.stack))]})
        s.truth['calls'] = [(T if th else ca == i, 'c', n) for i, n in enumerate(names)] + [(T if th else de == i, n, 'g') for i, n in enumerate(names)]
        if th: s.truth['calls'] += [(ca == i, 'c', n) for i, n in enumerate(names)]
        s.truth['sigs'] = [(de == i, n, 'void (i32)*') for i, n in enumerate(names)] + [(dc == i, n, 'void (i8)*') for i, n in enumerate(names)] + [(dc2 == i, n, 'void (i16)*') for i, n in enumerate(names)]
        s.truth['sigs'] += [(T, 'g', 'void ()*'), (T, 'c', 'void ()*')]
        s.truth['ptrs'] = [(T, 'c', 'void (i32)*'), (T, 'c', 'void (i8)*'), (T, 'c', 'void (i16)*')]
        if th: s.truth['machine'] = {n: V(8) for n in names}
        return s
    return gen


class Hidden:
    """a function whose symbols are written by hand"""
    def __init__(self, f): self.__dict__['f'] = f
    def __getattr__(self, k): return getattr(self.__dict__['f'], k)
    def __setattr__(self, k, v): setattr(self.__dict__['f'], k, v)
    hidden = True


# ---- two functions whose addresses may or may not be the same
def addresses(name, target):
    def gen(root):
        s = Scenario(root, name)
        th = thumb_target(target)
        p, g = setup(target)
        a = p.base + 0x40
        off = s.var('off', 3)         # of fb: 0, 2, 4 ...
        tb = s.var('tb', 1) if th else z3.BitVecVal(0, 1)
        r = s.var('r', 2)             # bit 0: fa recorded, bit 1: fb recorded
        s.assume(z3.Or(off != 0, r != 3))
        ca, cb, cg = s.var('ca', 1), s.var('cb', 1), s.var('cg', 1)
        W = lambda e: e if p.cls == 32 else z3.ZeroExt(32, e)
        y = lambda v, t: cat(z3.If(v == 1, B8(ord(t[0])), B8(59)), t[1:])
        p.text_size = 0x200
        fa = p.fn('fa', stack=24, ir=[], sig=('void', []), addr=a, code=[0, 0] * 16 if th else [0, 0, 0, 0])
        fa.rec_name = cat(z3.If(z3.Extract(0, 0, r) == 1, B8(102), B8(122)), 'a')
        if th: fa.stack = 0
        fb = Fn('fb', stack=0 if th else 40, ir=[y(cg, 'call void @g()')], sig=('void', []), code=[0, 0], addr=a)
        fb.rec_name = cat(z3.If(z3.Extract(1, 1, r) == 1, B8(102), B8(122)), 'b')
        p.fns.append(Hidden(fb))
        if th: fa.size = 2
        c = p.fn('c', stack=0 if th else 8, ir=[y(ca, 'call void @fa()'), y(cb, 'call void @fb()')], sig=('void', []), addr=p.base + 0x80)
        ab = A(a) + z3.ZeroExt(29, off) * 2
        p.extra_syms.append(('fb', W(z3.simplify(ab | z3.ZeroExt(31, tb))), 2, 0x12, 1))
        p.fill(s)
        s.truth['syms'] = [('fa', A(a), T, F), ('fb', ab, T, F), ('g', A(p.base), T, F), ('c', A(p.base + 0x80), T, F)]
        s.truth['rec'] = {'fa': [(z3.Extract(0, 0, r) == 1, V(fa.stack))], 'fb': [(z3.Extract(1, 1, r) == 1, V(fb.stack))], 'g': [(T, V(g.stack))], 'c': [(T, V(c.stack))]}
        s.truth['calls'] = [(ca == 1, 'c', 'fa'), (cb == 1, 'c', 'fb'), (cg == 1, 'fb', 'g')]
        s.truth['sigs'] = [(T, n, 'void ()*') for n in ('fa', 'fb', 'g', 'c')]
        s.truth['ptrs'] = []
        if th: s.truth['machine'] = {n: V(0) for n in ('fa', 'fb')}
        return s
    return gen


# ---- mapping symbols at the address of a function, in any position of the symbol table
def mapping(name, target, first, typed=False):
    def gen(root):
        s = Scenario(root, name)
        th = thumb_target(target)
        p, g = setup(target)
        p.tags = False
        k, d, d2, sh = s.var('k', 2), s.var('d', 4), s.var('d2', 4), s.var('sh', 1)
        rec = s.var('rec', 1)
        s.assume(z3.ULE(d, 9), z3.ULE(d2, 9))
        letters = 'ax' if typed else 'adt' if th else 'ad' if target.startswith('arm') else 'dx'
        ch = B8(ord(letters[0]))
        for i, l in enumerate(letters[1:], 1): ch = z3.If(k == i, B8(ord(l)), ch)
        s.assume(z3.ULT(k, len(letters)))
        if th: s.assume(k == 2)       # the code of F is Thumb code
        # `$d` or `$d.<two digits>`: the terminator moves
        nm = cat('$', ch, z3.If(sh == 1, B8(0), B8(46)), z3.If(sh == 1, B8(0), z3.ZeroExt(4, d) + 48), z3.If(sh == 1, B8(0), z3.ZeroExt(4, d2) + 48))
        a = p.base + 0x40
        if first: p.extra_syms.append((nm, a, 0, 2 if typed else 0, 1))
        f = p.fn('f', stack=0 if th else 24, ir=['call void @g()'] if not th else [], sig=('void', []), addr=a)
        f.rec_name = cat(z3.If(rec == 1, B8(102), B8(122)))
        if not first:
            f.aliases = [(nm, 2 if typed else 0)]
            if th: p.extra_syms.append(('$t', a, 0, 0, 1))
        if th: p.extra_syms.append(('$t.1', p.base, 0, 0, 1))
        p.fill(s)
        s.truth['syms'] = [('f', A(a), T, F), ('g', A(p.base), T, F)]
        s.truth['rec'] = {'f': [(rec == 1, V(f.stack))], 'g': [(T, V(g.stack))]}
        s.truth['calls'] = [] if th else [(T, 'f', 'g')]
        s.truth['sigs'] = [(T, 'f', 'void ()*'), (T, 'g', 'void ()*')]
        s.truth['ptrs'] = []
        if th: s.truth['machine'] = {'f': V(0)}
        return s
    return gen


# ---- functions whose names begin like those of mapping symbols
def dollar(name, target, mode):
    """a function named `$`, a letter and more (no dot): alone or together with another name"""
    def gen(root):
        s = Scenario(root, name)
        th = thumb_target(target)
        p, g = setup(target)
        k, ch = s.var('k', 2), s.var('ch', 8)
        L = 'adtx'
        l = B8(ord(L[0]))
        for i in range(1, 4): l = z3.If(k == i, B8(ord(L[i])), l)
        s.assume(z3.Or(z3.And(z3.UGE(ch, 97), z3.ULE(ch, 122)), z3.And(z3.UGE(ch, 48), z3.ULE(ch, 57)), ch == ord('_'), ch == ord('$')))
        nm = cat('$', l, ch, 'c')
        a = p.base + 0x40
        f = p.fn('f' if mode == 'alias' else nm, stack=8 if th else 24, ir=['call void @g()'], sig=('void', []), addr=a)
        if th: f.code = Tb.push(2) + Tb.bl(a + 2, p.base) + [0x08, 0xbd]
        if mode == 'alias': f.aliases = [(nm, 2)]
        if mode == 'record':
            f.aliases = [('f', 2)]
        p.fn('c', stack=8, ir=[cat('call void @', nm, '()')], sig=('void', []), addr=p.base + 0x80,
             code=(Tb.push(2) + Tb.bl(p.base + 0x82, a) + [0x08, 0xbd]) if th else None)
        p.fill(s)
        s.truth['first'] = ('f', nm, mode)
        s.truth['k'], s.truth['ch'] = k, ch
        s.truth['gc'] = V(g.stack)
        s.truth['fst'], s.truth['cst'] = V(f.stack), V(8)
        return s
    return gen


def dollar_oracle(c):
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        return
    g = c.graph()
    f, nm, mode = c.T['first']
    gi, ci = g.by_name('g'), g.by_name('c')
    rest = [n for n in g.nodes.values() if n not in gi + ci]
    if len(gi) != 1 or len(ci) != 1 or len(rest) != 1: return c.fail('%d nodes instead of three' % len(g.nodes))
    x = rest[0]
    want = items('f') if mode == 'alias' else nm
    name = [B8(y) if isinstance(y, int) else y for y in x.name]
    wn = [B8(y) if isinstance(y, int) else y for y in want]
    if len(name) != len(wn): c.fail('the function is shown as %s' % show(x.name))
    else: c.require(z3.And([a == b for a, b in zip(name, wn)]), 'the function is shown as %s' % show(x.name))
    for n, st in ((gi[0], c.T['gc']), (ci[0], c.T['cst']), (x, c.T['fst'])):
        if n.local is None: c.fail('a usage is lost')
        else: c.require(n.local == st, 'a usage is wrong')
    if set(g.edges) != {(x.id, gi[0].id), (ci[0].id, x.id)}: c.fail('the calls through the name are shown as %s' % [(g.nm(a), g.nm(b)) for a, b in g.edges])
    c.tag = 'distinct'


# ---- other symbols and dead functions
def kinds(name, target):
    """x has any symbol type: it is a node only if it is a function; dead functions never are"""
    def gen(root):
        s = Scenario(root, name)
        p, g = setup(target)
        ty, bind, ex = s.var('ty', 4), s.var('bind', 4), s.var('ex', 1)
        s.assume(z3.Or([ty == k for k in (0, 1, 2, 3, 4, 6)]), z3.Or([bind == k for k in (0, 1, 2)]))
        ax = p.base + 0x60
        p.extra_syms.append(('x', ax, 4, z3.Concat(bind, ty), 1))
        x = Fn('x', stack=24, ir=['call void @g()'], sig=('void', ['i32']), addr=ax)
        p.fns.append(Hidden(x))
        d = Fn('dead', stack=1000, ir=['call void @g()', 'call void @x(i32 0)'], sig=('void', ['i32']))
        d.rec_name = cat('dea', z3.If(ex == 1, B8(100), B8(116)))
        p.dead.append(d)
        c = p.fn('c', stack=8, ir=['call void %p(i32 0)'], sig=('void', []), addr=p.base + 0x80)
        p.fill(s)
        s.truth['syms'] = [('x', A(ax), ty == 2, F), ('g', A(p.base), T, F), ('c', A(p.base + 0x80), T, F)]
        s.truth['rec'] = {'x': [(T, V(24))], 'g': [(T, V(16))], 'c': [(T, V(8))]}
        s.truth['calls'] = [(T, 'x', 'g')]
        s.truth['sigs'] = [(T, 'x', 'void (i32)*'), (T, 'g', 'void ()*'), (T, 'c', 'void ()*')]
        s.truth['ptrs'] = [(T, 'c', 'void (i32)*')]
        return s
    return gen


# ---- a function of many names
def crowd(name, target, n):
    def gen(root):
        s = Scenario(root, name)
        p, g = setup(target)
        names = ['n%s' % chr(97 + i) for i in range(n)]
        rec, ca = s.var('rec', 3), s.var('call', 3)
        s.assume(z3.ULE(rec, n), z3.ULT(ca, n))
        a = p.base + 0x40
        ch = lambda v: cat('n', z3.ZeroExt(5, v) + 97)
        f = p.fn(names[0], stack=24, ir=['call void @g()'], sig=('void', ['i32']), addr=a)
        f.aliases = [(x, 0x12 if i % 2 else 2) for i, x in enumerate(names[1:])]
        f.rec_name = ch(rec)
        p.extra_ir += ['declare void @%s(i32)' % x for x in names[1:]]
        p.fn('c', stack=8, ir=[cat('call void @', ch(ca), '(i32 0)')], sig=('void', []), addr=p.base + 0x80)
        p.fill(s)
        s.truth['syms'] = [(x, A(a), T, F) for x in names] + [('g', A(p.base), T, F), ('c', A(p.base + 0x80), T, F)]
        s.truth['rec'] = {x: [(rec == i, V(24))] for i, x in enumerate(names)}
        s.truth['rec'].update({'g': [(T, V(g.stack))], 'c': [(T, V(8))]})
        s.truth['calls'] = [(ca == i, 'c', x) for i, x in enumerate(names)] + [(T, names[0], 'g')]
        s.truth['sigs'] = [(T, x, 'void (i32)*') for x in names] + [(T, 'g', 'void ()*'), (T, 'c', 'void ()*')]
        s.truth['ptrs'] = []
        return s
    return gen


def scenarios(tier):
    q = [
        dict(name='names', gen=aliases('na', OTHER32, ('rec', 'def', 'dec', 'call', 'dec2')), oracle=oracle, reach=['merged']),
        dict(name='types', gen=aliases('nt', LINUX, ('rec', 'def', 'ty0', 'ty1', 'ty2')), oracle=oracle, reach=['merged']),
        dict(name='thumb', gen=aliases('nv', M7, ('rec', 'def', 'th0', 'th1', 'th2')), oracle=oracle, reach=['merged']),
        dict(name='thumb-types', gen=aliases('nu', M7, ('call', 'ty0', 'ty1', 'ty2', 'th0', 'th1')), oracle=oracle, reach=['merged']),
        dict(name='crowd', gen=crowd('cr', OTHER32, 7), oracle=oracle, reach=['merged']),
        dict(name='addresses', gen=addresses('ad', OTHER32), oracle=oracle, reach=['merged', 'distinct']),
        dict(name='addresses-thumb', gen=addresses('at', M7), oracle=oracle, reach=['merged', 'distinct']),
        dict(name='mapping-first', gen=mapping('mf', LINUX, True), oracle=oracle, reach=['distinct']),
        dict(name='mapping-arm', gen=mapping('ma', 'armv7r-none-eabi', True), oracle=oracle, reach=['distinct']),
        dict(name='mapping-arm-last', gen=mapping('mA', 'armv7r-none-eabi', False), oracle=oracle, reach=['distinct']),
        dict(name='mapping-typed', gen=mapping('my', OTHER32, True, True), oracle=oracle, reach=['distinct']),
        dict(name='mapping-typed-last', gen=mapping('mY', LINUX, False, True), oracle=oracle, reach=['distinct']),
        dict(name='mapping-last', gen=mapping('ml', OTHER32, False), oracle=oracle, reach=['distinct']),
        dict(name='mapping-thumb', gen=mapping('mt', M7, True), oracle=oracle, reach=['distinct']),
        dict(name='dollar', gen=dollar('do', OTHER32, 'alone'), oracle=dollar_oracle, reach=['distinct']),
        dict(name='dollar-alias', gen=dollar('da', LINUX, 'alias'), oracle=dollar_oracle, reach=['distinct']),
        dict(name='dollar-record', gen=dollar('dr', OTHER32, 'record'), oracle=dollar_oracle, reach=['distinct']),
        dict(name='dollar-thumb', gen=dollar('dt', M7, 'alone'), oracle=dollar_oracle, reach=['distinct']),
        dict(name='dollar-thumb-alias', gen=dollar('dv', M7, 'alias'), oracle=dollar_oracle, reach=['distinct']),
        dict(name='kinds', gen=kinds('ki', OTHER32), oracle=oracle, reach=['distinct']),
    ]
    return q


BOUNDS = 'one function with three names (function or untyped symbols, Thumb bit set or clear), each of recorded size, definition, two declarations and a direct call under any of them or none; one with seven names, recorded and called under any of them; two functions 0 to 14 bytes apart; mapping symbols of all kinds with two or no digits, function-typed ones included; functions named like them; symbols of all types and bindings; one dead function'
