from c06 import opt, pick, OTHER32, LINUX, B8, bit
from prog import *
from rec import *
import z3

T, F = z3.BoolVal(True), z3.BoolVal(False)


def ind_oracle(c):
    """truth: ind[caller][callee] = condition under which caller reaches callee through dashed nodes;
    calls[caller] = condition under which it calls through a pointer at all;
    label = [(condition, text)] of the only dashed node there can be (optional);
    direct = set of (caller, callee) ordinary edges."""
    t = c.T
    acc = t.get('accept', T)
    if not c.ok:
        c.fail('the analysis fails: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]), acc)
        return
    g = c.graph()
    names = {}
    for n in g.nodes.values():
        if not n.dashed: names.setdefault(show(n.name), []).append(n.id)
    dashed = {i for i, n in g.nodes.items() if n.dashed}
    known = t.get('fns') or set(t['ind']) | {y for w in t['ind'].values() for y in w}
    for f in known:
        if len(names.get(f, [])) != 1:
            c.fail('%d nodes for %s' % (len(names.get(f, [])), f), acc)
            return
    idn = {v[0]: k for k, v in names.items()}
    for i in dashed:
        n = g.nodes[i]
        if not n.name or n.name[-1] != 42: c.fail('a dashed node is not labelled with a pointer type: %s' % show(n.name), acc)
        if n.local is None or z3.simplify(n.local != 0).eq(T): c.fail('a dashed node uses stack', acc)
        if not any(b == i for a, b in g.edges): c.fail('a dashed node without callers', acc)
    e = set(g.edges)
    if len(e) != len(g.edges): c.fail('repeated edge', acc)
    for f in known:
        fi = names[f][0]
        ds = [d for d in dashed if (fi, d) in e]
        cond = t['calls'].get(f, F)
        if ds: c.require(z3.Implies(acc, cond), '%s has an edge to a function pointer it does not call' % f)
        else: c.require(z3.Implies(acc, z3.Not(cond)), '%s has no edge to the function pointer it calls' % f)
        want = t['ind'].get(f, {})
        for callee in known:
            has = any((d, names[callee][0]) in e for d in ds)
            w = want.get(callee, F)
            if has: c.require(z3.Implies(acc, w), '%s reaches %s, whose signature does not match' % (f, callee))
            else: c.require(z3.Implies(acc, z3.Not(w)), '%s does not reach %s, whose signature matches' % (f, callee))
    for a, b in e:
        if a not in dashed and b not in dashed and (show(g.nodes[a].name), show(g.nodes[b].name)) not in t.get('direct', ()):
            c.fail('unexpected edge', acc)
        if a in dashed and b in dashed: c.fail('edge between dashed nodes', acc)
    if 'label' in t:
        got = [show(g.nodes[d].name) for d in dashed]
        for cond, text in t['label']:
            want = [] if text is None else [text]
            if [x.replace(' ', '') for x in got] != [x.replace(' ', '') for x in want]: c.fail('dashed nodes are %s instead of %s' % (got, want), z3.And(acc, cond))
    else:
        labels = [show(g.nodes[d].name) for d in dashed]
        if len(set(labels)) != len(labels): c.fail('two dashed nodes with one label', acc)
    c.tag = 'calls' if dashed else 'none'


def mk(s, target=OTHER32):
    p = Program(target)
    return p


def decl(f, lst):
    f.sig = lst
    return f


def sel(v, xs, val):
    return z3.Or([v == i for i, x in enumerate(xs) if x == val])


TY = ['i1', 'i8', 'i32', 'i64', 'i128', 'ptr', 'float', 'double', '{ i8, i32 }', '{ i32, i8 }', '[2 x i32]', '[3 x i32]', '<2 x i32>', '%"a::S"', '%T.1', '<{ i8, i32 }>']
# types that differ from a neighbour in one constituent
NEAR = ['i32', '<2 x i32>', '<2 x float>', '<2 x i64>', '<4 x i32>', '<3 x i32>', '[2 x i32]', '[2 x i8]', '[2 x float]', '[0 x i32]', '[20 x i32]', '[2 x [2 x i32]]', '[2 x [3 x i32]]', '{ i32 }', '{ i32, i32 }',
        '{ i32, float }', '{ [2 x i32] }', '{ { i32 } }', '<{ i32 }>', '<{ i32, i32 }>', '<{}>', '%S.1', '%S.12', '%S', '%"T"', 'i32*', 'i8*', 'i32**', '[2 x i32]*', '{ i32 }*', '<2 x i32>*', 'void (i32)*']
FNEAR = ['i32', 'i32*', 'void ()*', 'void (i32)*', 'void (i8)*', 'i32 (i32)*', 'i8 (i32)*', 'void (i32, i32)*', 'void (i32, i8)*', 'void (i32*)*', 'void (i32)**', '%S*', '%"T"*', '<4 x i32>*', '[3 x i32]*', '[2 x i8]*']


def shown(x):
    return '%%"%s"%s' % (x[1:].rstrip('*'), '*' * x.count('*')) if x[0] == '%' and x[1] != '"' else x


# ---- one parameter of any type on either side
def types(name, target, where, tys, lead):
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        n = (len(tys) - 1).bit_length()
        a, b = s.var('a', n), s.var('b', n)
        for v in (a, b):
            if len(tys) < 1 << n: s.assume(z3.ULT(v, len(tys)))
        if where == 'param':
            f = p.fn('f', stack=8, ir=[], sig=('void', [lead, pick(a, tys)] if lead else [pick(a, tys)]))
            g = p.fn('g', stack=16, ir=[], sig=('void', ['i32']))
            call = cat('call void %f(', (lead + ' %x, ') if lead else '', pick(b, tys), ' %y) #5')
            lab = [(b == i, 'void (%s%s)*' % (lead + ', ' if lead else '', shown(x))) for i, x in enumerate(tys)]
            gm = sel(b, tys, 'i32') if not lead else F
            if isinstance(gm, bool): gm = z3.BoolVal(gm)
        else:
            th = thumb_target(target)
            f = p.fn('f', stack=None if th else 8, ir=[], sig=(pick(a, tys), []))
            g = p.fn('g', stack=0 if th else 16, ir=[], sig=('void', []))
            call = cat('%z = tail call ', pick(b, tys), ' %f(), !dbg !3')
            lab = [(b == i, '%s ()*' % shown(x)) for i, x in enumerate(tys)]
            gm = F
        c = p.fn('c', stack=0 if thumb_target(target) else 4, ir=['%f = load ptr, ptr %p, align 4', call], sig=('void', ['i16', 'i16']))
        p.fill(s)
        s.truth['ind'] = {'c': {'f': a == b, 'g': gm}, 'f': {}, 'g': {}}
        s.truth['calls'] = {'c': T}
        s.truth['label'] = lab
        return s
    return gen


# ---- number of parameters
LISTS = [[], ['i32'], ['ptr'], ['i32', 'i32'], ['i32', 'ptr'], ['ptr', 'i32'], ['i32', 'i32', 'i32'], ['ptr', 'i32', 'ptr'],
         ['i8', 'i16', 'i32', 'i64'], ['i8', 'i16', 'i64', 'i32'], ['i16', 'i8', 'i32', 'i64'], ['ptr'] * 5, ['ptr'] * 4, ['i8', 'i16', 'i32', 'i64', '%S', 'double', 'float'], ['i8', 'i16', 'i32', 'i64', '%S', 'double', 'double'], ['i8', 'i16', 'i32', 'i64', '%S', 'double']]


def arity(name, target, declared, far):
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        RES = ['i32', 'void', 'i8', 'ptr']
        a, b, r, q = s.var('a', 4), s.var('b', 4), s.var('r', 2), s.var('q', 2)
        if not far:
            # one of the two differs
            s.assume(z3.Or(a == b, r == q))
            s.assume(z3.Or(z3.And(z3.ULT(a, 8), z3.ULT(b, 8)), z3.And(z3.UGE(a, 8), z3.UGE(b, 8))))
        # padding goes after the closing parenthesis
        dl = ['(%s) #%d' % (', '.join('%s noundef %%%d' % (t, i) for i, t in enumerate(l)), i) for i, l in enumerate(LISTS)]
        dcl = ['(%s) #%d' % (', '.join('%s noundef' % t for t in l), i) for i, l in enumerate(LISTS)]
        cl = ['(%s) #%d' % (', '.join('%s noundef %%a%d' % (t, i) for i, t in enumerate(l)), i) for i, l in enumerate(LISTS)]
        f = p.fn('f', stack=8)
        if declared: p.extra_ir.append(cat('declare ', pick(r, RES), ' @f', pick(a, dcl)))
        else: p.extra_ir.append(cat('define internal fastcc ', pick(r, RES), ' @f', pick(a, dl), ' {\nstart:\n  ret void\n}'))
        g = p.fn('g', stack=16, ir=[], sig=('void', ['i32', 'ptr']))
        c = p.fn('c', stack=4, ir=[cat('%k = call ', pick(q, RES), ' %0', pick(b, cl))], sig=('void', ['i16']))
        p.fill(s)
        s.truth['ind'] = {'c': {'f': z3.And(a == b, r == q), 'g': z3.And(b == 4, q == 1)}, 'f': {}, 'g': {}}
        s.truth['calls'] = {'c': T}
        s.truth['label'] = [(z3.And(b == i, q == k), '%s (%s)*' % (R, ', '.join(map(shown, l)))) for i, l in enumerate(LISTS) for k, R in enumerate(RES)]
        return s
    return gen


# ---- opaque pointers match any pointer; typed pointers match their own type
PT = ['ptr', 'i8*', 'i32*', '%S*', 'i8**', 'void (i8)*', 'ptr*', 'i32']


def opaque(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        a, b, d = [s.var(x, 3) for x in 'abd']
        f = p.fn('f', stack=8, ir=[], sig=('void', [pick(a, PT)]))
        g = p.fn('g', stack=16, ir=[], sig=('void', [pick(b, PT)]))
        c = p.fn('c', stack=4, ir=[cat('call void %9(', pick(d, PT), ' %y)')], sig=('void', ['i16', 'i16']))
        p.fill(s)
        ptr = lambda v: v != 7
        m = lambda x, y: z3.Or(x == y, z3.And(x == 0, ptr(y)), z3.And(y == 0, ptr(x)))
        s.truth['ind'] = {'c': {'f': m(a, d), 'g': m(b, d)}, 'f': {}, 'g': {}}
        s.truth['calls'] = {'c': T}
        return s
    return gen


# ---- which functions call and which are there at all
def callers(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        k0, k1, k2, inv, dir_ = [s.var(x, 1) for x in ('k0', 'k1', 'k2', 'inv', 'dir')]
        lv = s.var('live', 1)
        on = lambda k, text: cat(z3.If(k == 1, B8(ord(text[0])), B8(59)), text[1:])
        p.fn('u', stack=8, ir=[], sig=('i32', ['ptr']))
        v = p.fn(cat(z3.If(lv == 1, B8(118), B8(119)), '1'), stack=8, ir=[], sig=('i32', ['ptr']))
        v.ir_name = v.rec_name = 'v1'
        p.dead.append(Fn('gone', stack=8, ir=['call void %0(i64 1)'], sig=('i32', ['ptr'])))
        p.fn('x', stack=24, ir=[], sig=('void', []))
        p.fn('y', stack=24, ir=[on(k2, 'call void %0()')], sig=('void', ['i8']))
        p.fn('a', stack=4, ir=[on(k0, 'call i32 %f(ptr null)'), on(k0, 'call i32 %g(ptr %x)')], sig=('void', ['i8']))
        p.fn('b', stack=4, ir=[on(inv, 'invoke i32 %f(ptr @x) to label %bb1 unwind label %cl'), cat('%3 = ', opt(k1, 'call noundef i32 %h(ptr align 4 undef)', 'load i32, ptr %h, align 4, !noundef !7')), 'call void @x()'], sig=('void', ['i8']))
        p.fill(s)
        anyc = z3.Or(k0 == 1, k1 == 1, inv == 1)
        bc = z3.Or(k1 == 1, inv == 1)
        s.truth['fns'] = {'u', 'x', 'y', 'a', 'b'}
        s.truth['ind'] = {'a': {'u': k0 == 1}, 'b': {'u': bc}, 'y': {'x': k2 == 1}}
        s.truth['calls'] = {'a': k0 == 1, 'b': bc, 'y': k2 == 1}
        s.truth['direct'] = {('b', 'x')}
        s.truth['lv'] = lv == 1
        s.truth['anyc'] = anyc
        s.truth['k2'] = k2 == 1
        return s
    return gen


def callers_oracle(c):
    ind_oracle(c)
    if not c.ok or c.pending: return
    g = c.graph()
    e = g.edge_names()
    n = [show(x.name) for x in g.nodes.values()]
    L, A, K2 = c.T['lv'], c.T['anyc'], c.T['k2']
    c.require(z3.BoolVal('v1' in n) == L, 'a function that is not linked is shown')
    c.require(z3.BoolVal(('i32 (ptr)*', 'v1') in e) == z3.And(A, L), 'the linked function of this type is not reached')
    c.require(z3.BoolVal(n.count('i32 (ptr)*') == 1) == A, 'node of the called signature')
    c.require(z3.BoolVal('void ()*' in n) == K2, 'node of the called signature')
    c.require('gone' not in n and 'void (i64)*' not in n, 'a dead function is shown')


# ---- two functions of one type called from one caller with several signatures, recursion through pointers
def several(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        S = ['void ()', 'void (i32)', 'i1 (ptr)', 'ptr (ptr, i32)']
        D = ['define void @F()', 'define void @F(i32 %0)', 'define i1 @F(ptr nonnull align 4 %self)', 'define noundef ptr @F(ptr %0, i32 signext %1)']
        C = ['call void %p()', 'call void %p(i32 7)', '%r = call zeroext i1 %p(ptr %x)', '%r = call ptr %p(ptr undef, i32 -1)']
        v = [s.var('t%d' % i, 2) for i in range(2)]
        w = [s.var('c%d' % i, 2) for i in range(2)]
        for i in range(2):
            p.fn('f%d' % i, stack=8 + i)
            p.extra_ir.append(cat(pick(v[i], [d.replace('F', 'f%d' % i) + ' {' for d in D]).copy(), '\n  ', pick(w[i], C), '\n  ret void\n}'))
        p.fill(s)
        s.truth['ind'] = {'f%d' % i: {'f%d' % j: w[i] == v[j] for j in range(2)} for i in range(2)}
        s.truth['calls'] = {'f0': T, 'f1': T}
        return s
    return gen


# ---- values passed to the pointer do not matter
ARGS = ['i32 %x', 'i32 5', 'i32 -1', 'i32 undef', 'i32 noundef zeroext %7', 'i32 signext 12', 'i32 inreg %_4.0']
PARG = ['ptr null', 'ptr @g', 'ptr undef', 'ptr %p', 'ptr noalias nocapture noundef nonnull readonly align 1 %x.0', 'ptr sret({ i32, [2 x i8] }) align 4 dereferenceable(8) %s', 'ptr getelementptr inbounds (<{ [4 x i8] }>, ptr @anon.1, i32 0, i32 0, i32 2)',
        'ptr byval(%S) %v', 'ptr bitcast (ptr @h to ptr)', 'ptr align 8 dereferenceable_or_null(4) %z']
BARG = ['i1 true', 'i1 false', 'i1 zeroext %b', 'i1 noundef undef']


def values(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        a, b, d = s.var('a', 3), s.var('b', 4), s.var('d', 2)
        s.assume(z3.ULT(a, len(ARGS)))
        s.assume(z3.ULT(b, len(PARG)))
        tail, at = s.var('tail', 1), s.var('at', 1)
        p.fn('f', stack=8, ir=[], sig=('void', ['i32', 'ptr', 'i1']))
        p.fn('g', stack=8, ir=[], sig=('void', ['i32', 'ptr', 'i8']))
        # unequal lengths: the blanks go in front of the value
        def lp(v, l):
            n = max(map(len, l))
            return pick(v, [x.replace(' ', ' ' * (n - len(x) + 1), 1) for x in l])
        p.fn('c', stack=4, ir=[cat(opt(tail, 'tail call fastcc', 'call'), ' void %q(', lp(a, ARGS), ', ', lp(b, PARG), ', ', lp(d, BARG), ')', opt(at, ' #3, !dbg !4'))], sig=('void', []))
        p.fill(s)
        s.truth['ind'] = {'c': {'f': T, 'g': F}}
        s.truth['calls'] = {'c': T}
        s.truth['label'] = [(T, 'void (i32, ptr, i1)*')]
        s.truth['fns'] = {'c', 'f', 'g'}
        return s
    return gen


# ---- arguments can be any constants, local values have any names
CI = ['i32 poison', 'i32 noundef ptrtoint (ptr @g to i32)', 'i32 add (i32 ptrtoint (ptr @"a, b)" to i32), i32 3)', 'i32 %"x, y("']
CP = ['ptr inttoptr (i32 4 to ptr)', 'ptr noundef nonnull align 1 inttoptr (i32 1 to ptr)', 'ptr @"x), (y"', 'ptr %"\\C3\\A9"', 'ptr poison', 'ptr addrspacecast (ptr addrspace(1) @z to ptr)',
      'ptr getelementptr (i8, ptr @v, i32 12)', 'ptr noalias getelementptr inbounds ({ i8, i8 }, ptr inttoptr (i32 1024 to ptr), i32 -1, i32 1)']
CF = ['float 1.000000e+00', 'float 0x3FB99999A0000000', 'float -0.000000e+00', 'float noundef %x', 'float undef']
CA = ['{ i32, [2 x i8] } { i32 1, [2 x i8] c"\\22)" }', '{ i32, [2 x i8] } zeroinitializer', '{ i32, [2 x i8] } { i32 undef, [2 x i8] [i8 1, i8 2] }', '{ i32, [2 x i8] } %7']
CV = ['<2 x i32> <i32 1, i32 2>', '<2 x i32> splat (i32 1)', '<2 x i32> noundef %"v>"', '<2 x i32> zeroinitializer']
CQ = ['call zeroext i1 %q', 'call i1 %"q r("', 'tail call noundef i1 %12', 'call i1 %"\\C3\\A9.i"']
CL = ['', '%r = ', '%"a b" = ', '%"\\C3\\A9" = ']


def constants(name, target, which):
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        L = dict(zip('ipfavql', (CI, CP, CF, CA, CV, CQ, CL)))
        V = {}
        for x in which:
            V[x] = s.var(x, 4)
            s.assume(z3.ULT(V[x], len(L[x])))
        def lp(x):
            if x not in which: return L[x][0]
            n = max(map(len, L[x]))
            return pick(V[x], [y.replace(' ', ' ' * (n - len(y) + 1), 1) if ' ' in y else ' ' * (n - len(y)) + y for y in L[x]])
        S = ['i32', 'ptr', 'float', '{ i32, [2 x i8] }', '<2 x i32>']
        p.fn('f', stack=8, ir=[], sig=('i1', S))
        p.fn('g', stack=8, ir=[], sig=('i1', S[:-1] + ['<4 x i32>']))
        p.fn('h', stack=8, ir=[], sig=('i1', S[:-1]))
        p.fn('c', stack=4, ir=[cat(lp('l'), lp('q'), '(', lp('i'), ', ', lp('p'), ', ', lp('f'), ', ', lp('a'), ', ', lp('v'), ') #3')], sig=('void', []))
        p.fill(s)
        s.truth['ind'] = {'c': {'f': T, 'g': F, 'h': F}}
        s.truth['calls'] = {'c': T}
        s.truth['label'] = [(T, 'i1 (i32, ptr, float, {i32, [2 x i8] }, <2 x i32>)*')]
        s.truth['fns'] = {'c', 'f', 'g', 'h'}
        return s
    return gen


def rmatch(name, target):
    """signature recorded under an alias, in compiler_builtins, for a function also declared"""
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        v = s.var('v', 2)
        f = p.fn('f', stack=8, aliases=['zed', 'f_alias'])
        # none | declared under the alias | defined under the alias | declared twice
        p.extra_ir.append(pick(v, ['declare i8 @nobody(i8)', 'declare i8 @f_alias(i8)', 'define i8 @f_alias(i8 %0) {', 'declare i8 @zed(i8)']))
        p.extra_ir.append(pick(v, ['; ', '; ', '  ret i8 0', '; ']))
        p.extra_ir.append(pick(v, [';', ';', '}', ';']))
        g = p.fn('g', stack=12, ir=[], sig=('i8', ['i8']), where='builtins')
        p.fn('h', stack=12, ir=[], sig=('i8', ['i16']), where='builtins')
        p.fn('c', stack=4, ir=['%r = call i8 %q(i8 %0)'], sig=('void', []))
        p.fill(s)
        s.truth['v'] = v
        return s
    return gen


def rmatch_oracle(c):
    if not c.ok: return c.fail('the analysis fails')
    g = c.graph()
    e = g.edge_names()
    v = c.T['v']
    c.require(('c', 'i8 (i8)*') in e and e.count(('i8 (i8)*', 'g')) == 1, 'function of compiler_builtins')
    c.require(('i8 (i8)*', 'h') not in e, 'signature of h does not match')
    c.require(z3.BoolVal(('i8 (i8)*', 'f') in e) == (v != 0), 'signature under an alias')
    c.require(z3.BoolVal(('i8 (i8)*', '?') in e) == (v == 0), 'untyped symbol')
    c.tag = 'calls'


def formatter(name, target, void='fmt::Void'):
    """the erased receiver of formatting functions stands for every receiver"""
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        R = ['%%"%s"*' % void, '%"A"*', '%"B"*', 'i32*']
        a, b, d = [s.var(x, 2) for x in 'abd']
        s.assume(d == 0)
        fm = '%"core::fmt::Formatter"*'
        p.fn('f', stack=8, ir=[], sig=('i1', [pick(a, R), fm]))
        p.fn('g', stack=8, ir=[], sig=('i1', [pick(b, R), fm]))
        p.fn('o', stack=8, ir=[], sig=('i1', ['%"A"*', '%"core::fmt::Other"*']))
        p.fn('o2', stack=8, ir=[], sig=('i8', ['%"A"*', fm]))
        p.fn('c', stack=4, ir=[cat('%r = call i1 %q(', pick(d, R), ' %0, ', fm, ' %1)')], sig=('void', []))
        p.fill(s)
        s.truth['ind'] = {'c': {'f': T, 'g': T, 'o': F, 'o2': F}}
        s.truth['calls'] = {'c': T}
        s.truth['label'] = [(T, 'i1 (%"fmt::Void"*, %"core::fmt::Formatter"*)*')]
        return s
    return gen


def variadic(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = mk(s, target)
        v, w, d = s.var('v', 2), s.var('w', 2), s.var('d', 1)
        P = ['(ptr, ...) ', '(...)      ', '(ptr)      ', '(i32, ...) ']
        D = ['(ptr noundef, ...) #1', '(...) #1', '(ptr noundef) #1', '(i32, ...) #1']
        f = p.fn('f', stack=8)
        p.extra_ir.append(cat('declare i32 @f', pick(v, D)))
        p.fn('g', stack=8, ir=[], sig=('i32', ['ptr', 'i32']))
        p.fn('h', stack=8, ir=[], sig=('void', ['ptr']))
        R = pick(d, ['i32 ', 'void '])
        p.fn('c', stack=4, ir=[cat('%r = call ', R, pick(w, P), '%q(ptr noundef %0, i32 7)')], sig=('void', []))
        p.fill(s)
        s.truth['ind'] = {'c': {'f': z3.And(v == w, d == 0), 'g': F, 'h': z3.And(w == 2, d == 1)}}
        s.truth['calls'] = {'c': T}
        return s
    return gen


def many(name, target, n=24, m=10):
    """many functions of a few types, many callers; some of them call or not, some functions have one type or another"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        S = [('void', ['i32']), ('void', ['i64']), ('i1', ['ptr', 'ptr']), ('ptr', []), ('i32', ['i32'] * 5)]
        k = len(S)
        ty = {i: s.var('t%d' % i, 1) for i in (0, n // 2, n - 1)}
        on = {j: s.var('c%d' % j, 1) for j in (0, m - 1)}
        sg = lambda i: i * 7 % k
        alt = lambda i: (sg(i) + 1) % k
        for i in range(n):
            if i in ty:
                d = ['define %s @f%d(%s) {' % (S[q][0], i, ', '.join('%s noundef %%%d' % (t, z) for z, t in enumerate(S[q][1]))) for q in (sg(i), alt(i))]
                p.fn('f%d' % i, stack=8 + i)
                p.extra_ir.append(cat(pick(ty[i], [x.replace('{', '#%d {' % (10 ** (max(map(len, d)) - len(x)))) for x in d]), '\n  ret void\n}'))
            else: p.fn('f%d' % i, stack=8 + i, ir=[], sig=S[sg(i)])
        call = lambda q: 'call %s %%p(%s)' % (S[q][0], ', '.join('%s %%%d' % (t, z) for z, t in enumerate(S[q][1])))
        def body(j):
            l = [call((j + z) % k) for z in range(1 + j % 3)]
            if j in on: l = [cat(z3.If(on[j] == 1, B8(99), B8(59)), x[1:]) for x in l]
            return l + ['store i32 0, ptr %q'] * j
        for j in range(m): p.fn('c%d' % j, stack=8, ir=body(j), sig=('i8', ['i8']))
        p.fill(s)
        I = {}
        for j in range(m):
            o = on[j] == 1 if j in on else T
            qs = {(j + z) % k for z in range(1 + j % 3)}
            w = {}
            for i in range(n):
                c = z3.BoolVal(sg(i) in qs) if i not in ty else z3.If(ty[i] == 0, z3.BoolVal(sg(i) in qs), z3.BoolVal(alt(i) in qs))
                w['f%d' % i] = z3.simplify(z3.And(o, c))
            I['c%d' % j] = w
        for i in range(n): I['f%d' % i] = {}
        s.truth['ind'] = I
        s.truth['calls'] = {'c%d' % j: (on[j] == 1 if j in on else T) for j in range(m)}
        return s
    return gen


def scenarios(tier):
    rets = [x for x in NEAR if '(' not in x]
    q = [
        dict(name='param', gen=types('pa', OTHER32, 'param', TY, None), oracle=ind_oracle, reach=['calls']),
        dict(name='param2', gen=types('pb', LINUX, 'param', TY, 'ptr'), oracle=ind_oracle, reach=['calls']),
        dict(name='ret', gen=types('re', 'thumbv7m-none-eabi', 'ret', TY, None), oracle=ind_oracle, reach=['calls']),
        dict(name='near', gen=types('ne', OTHER32, 'param', NEAR, None), oracle=ind_oracle, reach=['calls']),
        dict(name='near-second', gen=types('nt', LINUX, 'param', NEAR if tier != 'quick' else NEAR[:16], 'i64'), oracle=ind_oracle, reach=['calls']),
        dict(name='near-pointers', gen=types('np', OTHER32, 'param', FNEAR, None), oracle=ind_oracle, reach=['calls']),
        dict(name='near-result', gen=types('nr', LINUX, 'ret', rets, None), oracle=ind_oracle, reach=['calls']),
        dict(name='arity', gen=arity('ar', OTHER32, False, tier != 'quick'), oracle=ind_oracle, reach=['calls']),
        dict(name='arity-declared', gen=arity('ad', OTHER32, True, tier != 'quick'), oracle=ind_oracle, reach=['calls']),
        dict(name='opaque', gen=opaque('op', OTHER32), oracle=ind_oracle, reach=['calls']),
        dict(name='callers', gen=callers('ca', LINUX), oracle=callers_oracle, reach=['calls', 'none']),
        dict(name='several', gen=several('se', OTHER32), oracle=ind_oracle, reach=['calls']),
        dict(name='values', gen=values('va', OTHER32), oracle=ind_oracle, reach=['calls']),
        dict(name='constants', gen=constants('co', OTHER32, 'ip'), oracle=ind_oracle, reach=['calls']),
        dict(name='constants-wide', gen=constants('cw', LINUX, 'fav'), oracle=ind_oracle, reach=['calls']),
        dict(name='locals', gen=constants('lo', OTHER32, 'iql'), oracle=ind_oracle, reach=['calls']),
        dict(name='recorded', gen=rmatch('rm', OTHER32), oracle=rmatch_oracle, reach=['calls']),
        dict(name='many', gen=many('my', LINUX), oracle=ind_oracle, reach=['calls']),
        dict(name='variadic', gen=variadic('vr', OTHER32), oracle=ind_oracle, reach=['calls']),
        dict(name='formatter-core', gen=formatter('fc', OTHER32, 'core::fmt::Void'), oracle=ind_oracle, reach=['calls']),
        dict(name='formatter-numbered', gen=formatter('fo', LINUX, 'core::fmt::Void.12'), oracle=ind_oracle, reach=['calls']),
        dict(name='formatter', gen=formatter('fm', OTHER32), oracle=ind_oracle, reach=['calls']),
    ]
    return q


BOUNDS = 'one or two calls through pointers against up to four functions, and ten callers against 24 functions of five types; every pair of 16 types, of 32 types that differ from another one in a single constituent (element type, element count, nesting, packing) and of 16 pointer and function pointer types, in parameter and return position, 16 parameter lists of up to seven parameters with 4 results, 8 pointer types, 7 x 10 x 4 argument forms; four to eight integer, pointer, floating point, aggregate and vector constants or quoted names as arguments, quoted names of the pointer and of the result'
