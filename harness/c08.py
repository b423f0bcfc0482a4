from c06 import opt, pick, OTHER32, LINUX, B8
from c03 import hwords, sp_zero
from prog import *
from rec import *
import isa, thumb as Tb, z3

T, F = z3.BoolVal(True), z3.BoolVal(False)


def unc_oracle(c):
    """truth['unc'][f]: condition under which f itself may call code the tool knows nothing about;
    truth['call'][(f, g)]: condition of an ordinary call; truth['unk'][f]: condition of unknown local usage (default: as reported);
    truth['direct']: {(f, x): cond} edges to nodes of undefined functions named x"""
    t = c.T
    acc = t.get('accept', T)
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]), acc)
        return
    g = c.graph()
    fns = t['unc']
    ids = {}
    for n in g.nodes.values(): ids.setdefault(show(n.name), []).append(n.id)
    for f in fns:
        if len(ids.get(f, [])) != 1:
            c.fail('%d nodes for %s' % (len(ids.get(f, [])), f), acc)
            return
    N = {f: g.nodes[ids[f][0]] for f in fns}
    mine = {n.id for n in N.values()}
    succ = {i: set() for i in g.nodes}
    for a, b in g.edges: succ[a].add(b)
    dashed = {i for i, n in g.nodes.items() if n.dashed}
    open_ = {i for i, n in g.nodes.items() if i not in mine and i not in dashed}     # stand for unknown code
    for i in open_:
        if g.nodes[i].local is not None: c.fail('unknown code is shown with a known stack usage', acc)
        nm = show(g.nodes[i].name)
        if nm not in t.get('undefined', ('?',)): c.fail('unexpected node %s' % nm, acc)
    named = [show(g.nodes[i].name) for i in open_ if show(g.nodes[i].name) != '?']
    if len(set(named)) != len(named): c.fail('two nodes for one undefined function', acc)
    direct = {}
    for f in fns:
        direct[f] = bool(succ[N[f].id] & open_) or any(succ[d] & open_ for d in succ[N[f].id] & dashed)
        if direct[f]: c.require(z3.Implies(acc, fns[f]), '%s is shown to call unknown code although it does not' % f)
        else: c.require(z3.Implies(acc, z3.Not(fns[f])), '%s may call unknown code, which the graph does not show' % f)
    for (f, x), cd in t.get('direct', {}).items():
        to = [i for i in open_ if show(g.nodes[i].name) == x]
        has = any(i in succ[N[f].id] or any(i in succ[q] for q in succ[N[f].id] & dashed) for i in to)
        c.require(z3.Implies(acc, cd == z3.BoolVal(has)), 'the edge from %s to the undefined %s is %s' % (f, x, 'wrong' if has else 'missing'))
    # bounds: whatever depends on unknown code is a lower bound
    order = list(fns)
    R = {f: {f} for f in fns}
    calls = t.get('call', {})
    unc = {}
    for f in order:
        unc[f] = z3.Or(fns[f], t.get('unk', {}).get(f, z3.BoolVal(N[f].local is None)))
    # conditions propagate along the calls (acyclic here)
    def dep(f, seen=()):
        return z3.Or([unc[f]] + [z3.And(cd, dep(y, seen + (f,))) for (x, y), cd in calls.items() if x == f and y not in seen])
    for f in fns:
        d = dep(f)
        c.require(z3.Implies(acc, d == z3.BoolVal(not N[f].exact)), 'bound of %s is %s' % (f, 'exact although it depends on unknown code' if N[f].exact else 'a lower bound although nothing it depends on is unknown'))
    c.tag = 'unknown' if open_ else 'known'


# ---- machine code of a function without type information
def asm(name, target, wide, declared=False):
    v7 = 'v6m' not in target
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        m = p.fn('m', code=[0x00, 0xb5] + Tb.bl(p.base + 2, p.base + 0x40) + [0x00, 0xbd], stack=4, ir=['call void @c()'])
        m.addr = p.base
        h = s.var('h', 16)
        A = p.base + 0x40
        if wide:
            k = s.var('k', 16)
            s.assume(isa.is32(h))
            if not v7: s.assume(z3.And(isa.pat(h, '11110xxxxxxxxxxx'), z3.Or(isa.pat(k, '11x1xxxxxxxxxxxx'), isa.pat(h, '11110x11100xxxxx'), isa.pat(h, '11110x11101xxxxx'))))
            else: s.assume(z3.Implies(isa.pat(h, '11110xxxxxxxxxxx'), z3.Not(isa.pat(k, '11x0xxxxxxxxxxxx'))))
            for cnd, t, kk in isa.branch32(h, k, A, v7): s.assume(z3.Not(cnd))
            s.assume(sp_zero(h, k))
            # LDR of PC with unpredictable addressing
            s.assume(z3.Implies(z3.And(isa.pat(h, '111110000101xxxx'), isa.pat(k, '1111xxxxxxxxxxxx'), z3.Not(isa.pat(h, 'xxxxxxxxxxxx1111'))),
                                z3.Or(isa.pat(k, '1111000000xxxxxx'), isa.pat(k, '11111100xxxxxxxx'), isa.pat(k, '11111xx1xxxxxxxx'))))
            u = isa.indirect32(h, k, v7)
            code = hwords(h, k)
        else:
            s.assume(isa.valid16(h, v7))
            for cnd, t, kk in isa.branch16(h, A, v7): s.assume(z3.Not(cnd))
            s.assume(h != 0xb080)
            # `bx pc` and `blx pc` are unpredictable
            s.assume(z3.Not(isa.pat(h, '01000111x1111000')))
            u = isa.indirect16(h)
            code = hwords(h)
        c = p.fn('c', code=code + Tb.BX_LR, addr=A, sig=('void', []))
        if declared: c.declared = True
        p.fill(s)
        s.truth['unc'] = {'m': F, 'c': u}
        s.truth['call'] = {('m', 'c'): T}
        return s
    return gen


# ---- a function whose body is in the IR: the IR decides; tail calls, several branches
def bodies(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        # c: linked without IR | declared | defined ; its code: two slots of bx lr / blx r3 / bx r2 / nop
        w, a, b = s.var('w', 2), s.var('a', 2), s.var('b', 2)
        s.assume(z3.ULE(w, 2))
        ops = [[0xc0, 0x46], [0x98, 0x47], [0x10, 0x47], [0x70, 0x47]]
        def slot(v):
            return [z3.simplify(z3.If(v == 0, B8(ops[0][i]), z3.If(v == 1, B8(ops[1][i]), z3.If(v == 2, B8(ops[2][i]), B8(ops[3][i]))))) for i in range(2)]
        m = p.fn('m', code=[0x00, 0xb5] + Tb.bl(p.base + 2, p.base + 0x40) + [0x00, 0xbd], stack=4, ir=['call void @c()'], addr=p.base)
        p.fn('c', code=slot(a) + slot(b) + Tb.BX_LR, addr=p.base + 0x40)
        p.fn('z', code=Tb.BX_LR, addr=p.base + 0x80, ir=[])
        p.extra_ir.append(pick(w, ['; nothing', 'declare void @c()', 'define void @c() unnamed_addr {']))
        p.extra_ir.append(cat(pick(w, [';', ';', ' ']), ' ret void'))
        p.extra_ir.append(pick(w, [';', ';', '}']))
        p.fill(s)
        ind = lambda v: z3.Or(v == 1, v == 2)
        s.truth['unc'] = {'m': F, 'c': z3.And(w != 2, z3.Or(ind(a), ind(b))), 'z': F}
        s.truth['call'] = {('m', 'c'): T}
        return s
    return gen


# ---- indirect calls while symbols without type information are linked in
def untyped(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        b = s.var('b', 8)
        w, k, q = s.var('w', 2), s.var('k', 1), s.var('q', 2)
        s.assume(z3.Or(b == ord('0'), b == ord('9'), b == ord('x'), b == ord('_')))
        th = thumb_target(target)
        u = p.fn(cat('OUTLINED_FUNCTION_1', b), stack=0)
        p.fn('v', stack=0)
        # v: no type | declared | defined under an alias name | declared with a matching type
        p.fns[1].aliases.append('va')
        p.extra_ir.append(pick(w, ['; nothing', 'declare i32 @v(i64)', 'declare i8 @va(i8, i8)', 'declare void @va(i32)']))
        m = p.fn('m', stack=0, ir=[cat(opt(k, 'call ', ';'), pick(q, ['void %f(i32 1)', 'void %f()', 'i64 %f(i32 1, i8 %x)', 'i32 %f(i64 3)']), ' #1')], sig=('void', []))
        p.fn('t', stack=0, ir=['call void @m()'], sig=('i1', []))
        p.fn('o', stack=0, ir=[], sig=('void', ['i32', 'i32', 'i32']))
        p.fill(s)
        digit = z3.And(z3.UGE(b, 48), z3.ULE(b, 57))
        un = z3.Or(w == 0, z3.Not(digit))
        s.truth['unc'] = {'v': F, 'm': z3.And(k == 1, un), 't': F, 'o': F}
        s.truth['call'] = {('t', 'm'): T}
        # a call of signature `void ()` also matches m itself, harmless: it is recursive without stack
        s.truth['undefined'] = ('?', 'OUTLINED_FUNCTION_10', 'OUTLINED_FUNCTION_19', 'OUTLINED_FUNCTION_1x', 'OUTLINED_FUNCTION_1_')
        s.truth['out'] = True
        return s
    return gen


# ---- a pointer call with any number of known candidates
def candidates(name, target, n, rounds):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        th = thumb_target(target)
        w, k = s.var('w', 1), s.var('k', 1)
        t = [s.var('t%d' % i, 1) for i in range(n)]
        p.fn('v', stack=0)                # no type information unless w = 1
        p.extra_ir.append(pick(w, ['; declared by none', 'declare i64 @v(i8, i8)']))
        p.fn('m', stack=0 if th else 8, ir=[cat(opt(k, 'call ', ';    '), 'void %f(i32 1)')] + ['call i1 %g(i8 1)'] * rounds, sig=('void', []))
        for i in range(n):
            f = p.fn('t%d' % i, stack=0 if th else 16 + 8 * i, sig=('void', ['i32']), ir=[])
            f.sig = ('void', [pick(t[i], ['i16', 'i32'])])
        p.fill(s)
        s.truth['unc'] = {'v': F, 'm': z3.And(w == 0, z3.BoolVal(True) if rounds else k == 1)}
        s.truth['unc'].update({'t%d' % i: F for i in range(n)})
        return s
    return gen


def untyped_oracle(c):
    if not c.ok:
        c.fail('the analysis fails')
        return
    g = c.graph()
    # the outlined function is an ordinary node here
    for n in g.nodes.values():
        if show(n.name).startswith('OUTLINED'): c.T['unc'][show(n.name)] = F
    unc_oracle(c)
    for k in [k for k in c.T['unc'] if k.startswith('OUT')]: del c.T['unc'][k]


# ---- calls to functions that are not in the executable
def undefined(name, target, ver):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        b = s.var('b', 8)
        k = [s.var('k%d' % i, 1) for i in range(4)]
        s.assume(z3.Or(b == ord('a'), b == ord('z'), b == ord('@')) if ver else z3.And(z3.UGE(b, 97), z3.ULE(b, 122)))
        if ver: p.undef += [cat(pick(s.var('v', 1), ['ext@@GLIBC_2.', 'ext@GLIBC_2.2']), b), pick(s.var('w', 1), ['other@@GLIBC_2.2.5', 'other@GLIBC_2.2.5']), 'plain']
        else: p.undef += ['ext', 'other', 'plain']
        p.extra_ir.append('declare void @ext()\ndeclare void @other()\ndeclare void @plain()')
        on = lambda v, text: cat(z3.If(v == 1, B8(ord(text[0])), B8(59)), text[1:])
        p.fn('a', stack=8, ir=[on(k[0], 'call void @ext()'), on(k[1], 'call void @b()')])
        p.fn('b', stack=16, ir=[on(k[2], 'call void @other()'), on(k[3], 'call void @plain()'), on(k[3], 'call void @plain()')])
        p.fn('d', stack=16, ir=['call void @a()', on(k[0], 'call void @ext()')])
        p.fn('e', stack=24, ir=[])
        p.fill(s)
        s.truth['unc'] = {'a': k[0] == 1, 'b': z3.Or(k[2] == 1, k[3] == 1), 'd': k[0] == 1, 'e': F}
        s.truth['call'] = {('a', 'b'): k[1] == 1, ('d', 'a'): T}
        s.truth['direct'] = {('a', 'ext'): k[0] == 1, ('a', 'other'): F, ('b', 'other'): k[2] == 1, ('b', 'plain'): k[3] == 1, ('b', 'ext'): F, ('d', 'ext'): k[0] == 1, ('d', 'other'): F}
        s.truth['undefined'] = ('ext', 'other', 'plain')
        return s
    return gen


# ---- functions that are not in the executable are candidates of pointer calls too
def undefined_pointers(name, target, n):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        D = ['void @X(i32)', 'i8 @X(i32 noundef)', 'void @X(i32, ...)']
        w = [s.var('w%d' % i, 2) for i in range(2)]
        t, d = s.var('t', 2), s.var('d', 1)
        for v in w + [t]: s.assume(z3.ULT(v, 3))
        nm = ['ext', 'puts']
        p.undef += ['ext@@GLIBC_2.2.5' if target == LINUX else 'ext', 'puts', 'plain']
        for q, v in zip(nm, w): p.extra_ir.append(pick(v, ['declare ' + x.replace('X', q) for x in D]))
        p.extra_ir.append('declare void @nowhere(i32)\ndeclare i8 @nowhere2(i32)\ndeclare void @nowhere3()')
        # a: the pointer call; z: a defined candidate; b: maybe a direct call of the same function
        p.fn('a', stack=8, ir=[pick(t, ['call void %p(i32 noundef 1) #1', '%r = call i8 %p(i32 %x) #1', 'call void %p() #2'])], sig=('i64', []))
        p.fn('b', stack=16, ir=[cat(opt(d, 'call ', ';    '), 'void @ext(i32 1)')], sig=('i64', []))
        p.fn('e', stack=24, ir=['%1 = call i64 @a()', 'ret void'], sig=('i64', []))
        for i in range(n): p.fn('z%d' % i, stack=32, ir=[], sig=('void', ['i32']))
        p.fill(s)
        hit = z3.Or([z3.And(t == 0, v == 0) for v in w] + [z3.And(t == 1, v == 1) for v in w])
        s.truth['unc'] = {'a': hit, 'b': d == 1, 'e': F}
        s.truth['unc'].update({'z%d' % i: F for i in range(n)})
        s.truth['call'] = {('e', 'a'): T}
        s.truth['undefined'] = ('ext', 'puts')
        for x, v in zip(nm, w): s.truth.setdefault('direct', {})[('a', x)] = z3.Or(z3.And(t == 0, v == 0), z3.And(t == 1, v == 1))
        s.truth['direct'].update({('b', 'ext'): d == 1, ('b', 'puts'): F, ('e', 'ext'): F, ('e', 'puts'): F})
        return s
    return gen


# ---- functions without stack information
def nostack(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        U = [s.var('u%d' % i, 1) for i in range(3)]
        K = [s.var('k%d' % i, 1) for i in range(3)]
        on = lambda v, text: cat(z3.If(v == 1, B8(ord(text[0])), B8(59)), text[1:])
        p.fn('a', stack=8, ir=[on(K[0], 'call void @b()'), on(K[1], 'call void @d()')])
        p.fn('b', stack=16, ir=[on(K[2], 'call void @d()')])
        p.fn('d', stack=0, ir=[])
        p.fn('e', stack=8, ir=['call void bitcast (void (i32)* @d to void ()*)()'])
        for f, u in zip(p.fns, U): f.rec_name = cat(z3.If(u == 1, B8(ord('x')), B8(ord(f.name))))
        for i in range(3): s.assume(z3.Or(U[i] == 0, *[U[j] == 0 for j in range(3) if j != i]))
        # three records named x would be rejected by the reader; only one may be missing
        s.assume(U[0] + U[1] != 2) if False else None
        s.assume(z3.Not(z3.And(U[0] == 1, U[1] == 1)))
        s.assume(z3.Not(z3.And(U[0] == 1, U[2] == 1)))
        s.assume(z3.Not(z3.And(U[1] == 1, U[2] == 1)))
        p.fill(s)
        s.truth['unc'] = {x: F for x in 'abde'}
        s.truth['unk'] = {'a': U[0] == 1, 'b': U[1] == 1, 'd': U[2] == 1, 'e': F}
        s.truth['call'] = {('a', 'b'): K[0] == 1, ('a', 'd'): K[1] == 1, ('b', 'd'): K[2] == 1, ('e', 'd'): T}
        return s
    return gen


# ---- an assembly function with any mix of calls, jumps and pointer calls
def combos(name, target, slots):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        A = p.base + 0x40
        NOP = [0xc0, 0x46]
        kinds = {'jump': (Tb.bcc_t1, 2), 'call': (Tb.bl, 4), 'push': ([0x02, 0xb4], 2), 'blx': ([0x98, 0x47], 2), 'tail': (Tb.bw, 4)}
        code, at, calls, unc = [], 0, [], []
        for i, kd in enumerate(slots):
            v = s.var('k%d' % i, 1)
            n = kinds[kd][1]
            if kd == 'jump': on = Tb.bcc_t1(A + at, A + at + 6)
            elif kd == 'call': on = Tb.bl(A + at, p.base); calls.append(v == 1)
            elif kd == 'tail': on = Tb.bw(A + at, p.base); calls.append(v == 1)
            else: on = kinds[kd][0]
            if kd == 'blx': unc.append(v == 1)
            off = NOP * (n // 2)
            code += [z3.If(v == 1, B8(a), B8(b)) for a, b in zip(on, off)]
            at += n
        p.fn('z', code=Tb.BX_LR, stack=0, ir=[], addr=p.base)
        p.fn('m', code=code + NOP * 3 + Tb.BX_LR, addr=A)
        p.fn('top', code=Tb.BX_LR, stack=0, ir=['call void @m()'], addr=A + 0x100)
        p.fill(s)
        u = z3.Or(unc)
        s.truth['unc'] = {'z': F, 'm': u, 'top': F}
        s.truth['call'] = {('m', 'z'): z3.Or(calls), ('top', 'm'): T}
        return s
    return gen


def scenarios(tier):
    return [
        dict(name='asm16-v7', gen=asm('a7', 'thumbv7em-none-eabihf', False), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='asm16-v6', gen=asm('a6', 'thumbv6m-none-eabi', False, True), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='asm32-v7', gen=asm('w7', 'thumbv7m-none-eabi', True), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='asm32-v6', gen=asm('w6', 'thumbv6m-none-eabi', True), oracle=unc_oracle, reach=['known']),
        dict(name='combos', gen=combos('cb', 'thumbv7em-none-eabi', ['jump', 'call', 'push', 'blx']), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='combos-twice', gen=combos('ct', 'thumbv7m-none-eabi', ['blx', 'call', 'call', 'blx', 'tail']), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='bodies', gen=bodies('bo', 'thumbv7m-none-eabi'), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='untyped', gen=untyped('un', OTHER32), oracle=untyped_oracle, reach=['unknown', 'known']),
        dict(name='untyped-thumb', gen=untyped('ut', 'thumbv6m-none-eabi'), oracle=untyped_oracle, reach=['unknown', 'known']),
        dict(name='candidates', gen=candidates('cn', OTHER32, 4, 0), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='candidates-linux', gen=candidates('cl', LINUX, 3, 1), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='undefined', gen=undefined('ud', OTHER32, False), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='undefined-versioned', gen=undefined('uv', LINUX, True), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='undefined-pointers', gen=undefined_pointers('up', OTHER32, 0), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='undefined-pointers-2', gen=undefined_pointers('uq', LINUX, 1), oracle=unc_oracle, reach=['unknown', 'known']),
        dict(name='nostack', gen=nostack('ns', LINUX), oracle=unc_oracle, reach=['known']),
    ]


BOUNDS = 'every 16-bit and 32-bit instruction in an assembly function under one caller; two slots of branches in a function without, with declared and with defined type information; up to two pointer calls with none to four candidates; functions without IR with any mix of four to five local jumps, calls, pushes and pointer calls; one pointer call of four signatures among typed, untyped and outlined symbols; three undefined functions called from three; two undefined functions of three signatures and a pointer call of three; programs of up to 5 functions'
