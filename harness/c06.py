from c03 import edges_oracle
from prog import *
from rec import *
import z3

OTHER32 = 'riscv32imac-unknown-none-elf'
LINUX = 'x86_64-unknown-linux-gnu'
B8 = lambda v: z3.BitVecVal(v, 8)


def opt(v, a, b=None):
    """content: text a if v else text b (blanks by default), padded with blanks to the same length"""
    b = '' if b is None else b
    n = max(len(a), len(b))
    a, b = items(a.ljust(n)), items(b.ljust(n))
    return [x if x == y else z3.If(v == 1, B8(x), B8(y)) for x, y in zip(a, b)]


def pick(v, texts):
    """content: texts[v], padded with blanks"""
    n = max(len(t) for t in texts)
    out = []
    for i in range(n):
        col = [ord(t.ljust(n)[i]) for t in texts]
        if len(set(col)) == 1:
            out.append(col[0])
            continue
        e = B8(col[0])
        for k, c in enumerate(col[1:], 1):
            if c != col[0]: e = z3.If(v == k, B8(c), e)
        out.append(e)
    return out


def bit(c): return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def base(s, target=OTHER32, n=3):
    p = Program(target)
    p.T = z3.BoolVal(True)
    for i in range(n):
        p.fn('f%d' % i, stack=8 * (i + 1), ir=[])
    c = p.fn('c', stack=4, ir=[])
    return p, c


def edges_only(s, caller, want, accept=None, others=()):
    s.truth['edges'] = {caller: want}
    for o in others: s.truth['edges'][o] = {}
    if accept is not None: s.truth['accept'] = accept
    s.truth['ignore'] = ()


# ---- one call statement with every combination of the optional parts
def forms(name, target, kind):
    def gen(root):
        s = Scenario(root, name)
        p, c = base(s, target)
        asg, tail, cc, ra, pa, at = [s.var(x, 1) for x in ('asg', 'tail', 'cc', 'ra', 'pa', 'at')]
        callee = s.var('callee', 2)
        s.assume(z3.ULE(callee, 2))
        nm = cat('f', z3.ZeroExt(6, callee) + 48)
        op = 'invoke' if kind == 'invoke' else 'call'
        line = cat(opt(asg, '%_4.i = '), opt(tail if op == 'call' else z3.BitVecVal(0, 1), 'tail'), ' ', op, ' ', opt(cc, 'fastcc'), ' ')
        if kind == 'args':
            rty = s.var('rty', 3)
            pty = s.var('pty', 3)
            R = ['void', 'i32', 'ptr', '{ i32, i1 }', 'i1', '{ ptr, ptr }', '[2 x i64]', 'double']
            A = ['i32 %x', 'ptr @g', 'ptr null', 'i1 true', 'i64 -7', 'float %y', '{ i32, i32 } %s', '[4 x i8] undef']
            line += cat(opt(ra, 'noundef zeroext'), ' ', pick(rty, R), ' @', nm, '(', opt(pa, 'ptr noalias nocapture noundef dereferenceable(8) %0,'), ' ', pick(pty, A), ')', opt(at, ' #7, !dbg !31'))
        elif kind == 'quoted':
            line += cat(opt(ra, 'noundef align 4'), ' ptr ', '@"', nm, '"', '(', opt(pa, 'i32 %1'), ')', opt(at, ' [ "kcfi"(i32 1) ], !noalias !9'))
        else:
            line += cat(opt(ra, 'noundef nonnull align 4 dereferenceable(16)'), ' ', pick(s.var('rty', 1), ['void', 'ptr']), ' @', nm, '(', opt(pa, 'i32 noundef %1, ptr %p'), ')', opt(at, ' #7, !dbg !31'))
            if kind == 'invoke': line += cat(' to label %bb1 unwind label %cleanup')
            if kind == 'invoke2': pass
        c.ir = ['%x = load i32, ptr %0, align 4', line, 'br label %bb9', ';x', '%y = add i32 %x, 1']
        p.fill(s)
        edges_only(s, 'c', {'f%d' % i: callee == i for i in range(3)})
        return s
    return gen


# ---- several calls in a row: once per callee, whatever the repetition
def repeats(name, target):
    def gen(root):
        s = Scenario(root, name)
        p, c = base(s, target)
        vs = [s.var('v%d' % i, 2) for i in range(3)]
        rows = []
        for v in vs:
            on = z3.If(v == 3, B8(59), B8(99))
            rows.append(cat(on, 'all void @f', z3.ZeroExt(6, v) + 48, '(i32 1), !dbg !5'))
            rows.append('store i32 0, ptr %0, align 4')
        c.ir = rows
        rec_ = s.var('self', 1)
        c.ir.append(cat('%7 = ', z3.If(rec_ == 1, B8(99), B8(120)), 'all noundef i32 @c()'))
        p.fill(s)
        w = {'f%d' % i: z3.Or([v == i for v in vs]) for i in range(3)}
        w['c'] = rec_ == 1
        edges_only(s, 'c', w)
        return s
    return gen


# ---- two names of one function, both with a body in the IR
def twins(name, target):
    def gen(root):
        s = Scenario(root, name)
        p, c = base(s, target)
        v = [s.var('v%d' % i, 2) for i in range(4)]
        st = lambda x: cat(z3.If(x == 3, B8(59), B8(99)), 'all void @f', z3.ZeroExt(6, x) + 48, '(i32 1), !dbg !5')
        c.ir = [st(v[0]), st(v[1])]
        c.aliases = [('c2', 0x12)]
        p.extra_ir += ['define void @c2() unnamed_addr #0 {', 'start:', cat('  ', st(v[2])), cat('  ', st(v[3])), '  ret void', '}']
        p.fill(s)
        edges_only(s, 'c', {'f%d' % i: z3.Or([x == i for x in v]) for i in range(3)})
        return s
    return gen


# ---- calls through a bitcast of a symbol, mixed with direct calls; a symbol nobody defined
def bitcasts(name, target):
    def gen(root):
        s = Scenario(root, name)
        p, c = base(s, target)
        a, b, d = [s.var(x, 2) for x in 'abd']
        for v in (a, b, d): s.assume(z3.ULE(v, 2))
        tail = s.var('tail', 1)
        c.ir = [cat('%1 = ', opt(tail, 'tail'), ' call i32 bitcast (i8* @f', z3.ZeroExt(6, a) + 48, ' to i32 ()*)() #6, !dbg !1177'),
                cat('call void bitcast (void (i32)* @f', z3.ZeroExt(6, b) + 48, ' to void ()*)() #6'),
                cat('call void @f', z3.ZeroExt(6, d) + 48, '()')]
        p.fill(s)
        edges_only(s, 'c', {'f%d' % i: z3.Or(a == i, b == i, d == i) for i in range(3)})
        return s
    return gen


# ---- callers and callees that were garbage collected, or are named through an alias
def live(name, target):
    def gen(root):
        s = Scenario(root, name)
        p, c = base(s, target)
        g = s.var('g', 1)      # is the second caller linked in
        k = s.var('k', 1)
        # dead functions keep their IR and stack record
        p.dead.append(Fn('dead', stack=99, ir=['call void @f0()', 'call void @c()', 'call void @dead()']))
        d = p.fn(cat(z3.If(g == 1, B8(100), B8(120)), '1'), stack=5, ir=[cat(z3.If(k == 1, B8(99), B8(59)), 'all void @f1()'), 'call void @al2()'])
        d.ir_name = 'd1'
        d.rec_name = 'd1'
        p.fns[2].aliases.append('al2')
        c.ir = ['call void @f0()']
        p.fill(s)
        T = z3.BoolVal(True)
        s.truth['edges'] = {'c': {'f0': T}, 'f0': {}, 'f1': {}, 'f2': {}}
        s.truth['g'], s.truth['k'] = g, k
        return s
    return gen


def live_oracle(c):
    edges_oracle(c)
    if c.pending or not c.ok: return
    g = c.graph()
    names = {show(n.name) for n in g.nodes.values()}
    G, K = c.T['g'], c.T['k']
    e = g.edge_names()
    c.require(z3.BoolVal('dead' not in names), 'a function that is not in the executable is shown')
    c.require(z3.BoolVal('d1' in names) == (G == 1), 'd1 is shown iff it is linked')
    c.require(z3.BoolVal(e.count(('d1', 'f1')) == 1) == z3.And(G == 1, K == 1), 'call of d1')
    c.require(z3.BoolVal(e.count(('d1', 'f2')) == 1) == (G == 1), 'call of d1 through an alias')
    c.require(z3.BoolVal(len(e) == len(set(e))), 'repeated edge')
    c.tag = 'edges'


# ---- intrinsics that do not lower to calls
NONE = ['llvm.dbg.value', 'llvm.dbg.declare', 'llvm.assume', 'llvm.trap', 'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.experimental.noalias.scope.decl',
        'llvm.abs.i32', 'llvm.bswap.i16', 'llvm.ctlz.i64', 'llvm.cttz.i32', 'llvm.sadd.with.overflow.i32', 'llvm.smul.with.overflow.i32', 'llvm.ssub.with.overflow.i8',
        'llvm.uadd.sat.i32', 'llvm.uadd.with.overflow.i64', 'llvm.umax.i32', 'llvm.umin.i32', 'llvm.umul.with.overflow.i32', 'llvm.usub.sat.i16', 'llvm.usub.with.overflow.i32',
        'llvm.vector.reduce.add.v4i32', 'llvm.x86.sse2.pmovmskb.128', 'llvm.x86.sse2.pause', 'memcmp']


def intrinsics(name, target):
    def gen(root):
        s = Scenario(root, name)
        p, c = base(s, target)
        v = s.var('v', 5)
        s.assume(z3.ULT(v, len(NONE)))
        n = max(len(x) for x in NONE)
        # the operand list follows the name directly: pad inside the parentheses
        texts = [(x + '(i32 %0)').ljust(n + 8) for x in NONE]
        c.ir = ['call void @f0()', cat('%9 = tail call i32 @', pick(v, texts)), 'call void @f2()']
        p.fill(s)
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        edges_only(s, 'c', {'f0': T, 'f1': F, 'f2': T})
        return s
    return gen


# ---- a comparison is a call when there is a routine for it: a function, another name of one, or an import
def memcmp(name, target):
    def gen(root):
        s = Scenario(root, name)
        p, c = base(s, target)
        m, w = s.var('m', 2), s.var('w', 1)
        p.fns[1].aliases.append((pick(bit(m == 1), ['memcmq', 'memcmp']), 0x22))
        p.undef.append(pick(bit(m == 2), ['memcms', 'memcmp']))
        p.fn(pick(bit(m == 0), ['memcmr', 'memcmp']), stack=16, declared=True, sig=('i32', ['i8*']))
        c.ir = ['call void @f0()', cat('%9 = ', opt(w, 'tail'), ' call i32 @memcmp(i8* %0, i8* %1, i32 %2) #4')]
        p.fill(s)
        edges_only(s, 'c', {'f0': p.T, 'f1': m == 1, 'memcmp': z3.Or(m == 0, m == 2)})
        return s
    return gen


# ---- a function that both the application and compiler_builtins define: the application's is the one linked in
def both(name, target):
    def gen(root):
        s = Scenario(root, name)
        p, c = base(s, target)
        w, x = s.var('w', 1), s.var('x', 1)
        p.fn('memset', stack=16, ir=['call void @f0()', cat('call void @f', pick(x, ['1', '2']), '()')], sig=('ptr', ['ptr', 'i32', 'i32']))
        b = Fn(pick(w, ['memset', 'memcmp']), stack=8, ir=['call void @c()'], sig=('ptr', ['ptr', 'i32', 'i32']), where='builtins')
        p.dead.append(b)
        d = p.fn('memcmp', ir=None, stack=24, where='app')
        p.fill(s)
        edges_only(s, 'memset', {'f0': p.T, 'f1': x == 0, 'f2': x == 1, 'c': z3.BoolVal(False), 'memset': z3.BoolVal(False)})
        s.truth['edges']['memcmp'] = {'c': w == 1}
        return s
    return gen


# ---- callee names of every shape
def names(name, target):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        b = s.var('b', 8)
        ok = z3.Or(z3.And(z3.UGE(b, 97), z3.ULE(b, 122)), z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), z3.And(z3.UGE(b, 48), z3.ULE(b, 57)), *[b == ord(x) for x in '-$._'])
        s.assume(ok)
        s.assume(z3.And(b != ord('Q')))
        nm = cat('k', b, 'm')
        f = p.fn(nm, stack=8, ir=[])
        p.fn('kQm', stack=8, ir=[])
        c = p.fn('c', stack=4, ir=['call void @kQm()', cat('call void @', nm, '(ptr %0)')])
        p.fill(s)
        return s
    return gen


def names_oracle(c):
    if not c.ok:
        c.fail('the analysis fails: %s %s' % (c.rec.kind, c.rec.code))
        return
    g = c.graph()
    ci = g.by_name('c')[0].id
    out = g.succ(ci)
    c.require(len(g.nodes) == 3 and sorted(out) == sorted(i for i in g.nodes if i != ci), 'the call to a function with an unusual name is not an edge')
    c.tag = 'edges'


# ---- names that LLVM IR spells with escape sequences
def escapes(name, target, ascii):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        T = z3.BoolVal(True)
        low = s.var('low', 1)
        b, u = (s.var('b', 7), z3.BitVecVal(0x29, 6)) if ascii else (z3.BitVecVal(0x5f, 7), s.var('u', 6))
        s.assume(z3.And(z3.UGE(b, 0x20), z3.ULT(b, 0x7f)))
        dig = lambda n: z3.If(z3.ULT(n, 10), z3.ZeroExt(4, n) + 48, z3.If(low == 1, z3.ZeroExt(4, n) + 87, z3.ZeroExt(4, n) + 55))
        hexed = cat('\\', dig(z3.ZeroExt(1, z3.Extract(6, 4, b))), dig(z3.Extract(3, 0, b)))
        p.fn('end', stack=8, ir=[])
        # any ASCII character; a UTF-8 sequence; a name that must not be mangled; a backslash
        F = [(cat('k', z3.ZeroExt(1, b), 'm'), cat('"k', hexed, 'm"')),
             (cat('t', 0xc3, z3.ZeroExt(2, u) | 0x80, 'z'), cat('"t\\C3\\', dig(2 + z3.ZeroExt(2, z3.Extract(5, 4, u)) + 6), dig(z3.Extract(3, 0, u)), 'z"')),
             (items('_Zraw'), items('"\\01_Zraw"')),
             (items('w\\01'), items('"w\\\\01"'))]
        for nm, ir in F:
            f = p.fn(nm, stack=8, ir=['call void @end()'])
            f.ir_name = ir
        # c calls them all, directly or through a bitcast
        p.fn('c', stack=4, ir=[cat('call void @', ir, '(ptr %0)') for _, ir in F] + ['call void @"\\01ext"(ptr %0)'])
        p.fn('d', stack=4, ir=[cat('call i32 bitcast (void ()* @', ir, ' to i32 ()*)() #6') for _, ir in F])
        p.undef = ['ext']
        p.fill(s)
        return s
    return gen


def escapes_oracle(c):
    if not c.ok:
        c.fail('the analysis fails: %s %s' % (c.rec.kind, c.rec.code))
        return
    g = c.graph()
    end, ci, di, ext = [g.by_name(x)[0].id if g.by_name(x) else None for x in ('end', 'c', 'd', 'ext')]
    if None in (end, ci, di, ext) or len(g.nodes) != 8:
        c.fail('the nodes are %s' % sorted(show(n.name) for n in g.nodes.values()))
        return
    mid = sorted(i for i in g.nodes if i not in (end, ci, di, ext))
    c.require(sorted(g.succ(ci)) == sorted(mid + [ext]), 'calls to functions with escaped names are not edges')
    c.require(sorted(g.succ(di)) == mid, 'bitcast calls to functions with escaped names are not edges')
    for i in mid: c.require(g.succ(i) == [end], 'a call in a function with an escaped name is not an edge')
    c.tag = 'edges'


# ---- many callers, callees and statements; some calls are there or not
def many(name, target, n=30, body=120):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        sym = {0, 1, n // 2, n - 2, n - 1}
        v = {i: s.var('v%d' % i, 1) for i in sym}
        line = lambda i: cat(z3.If(v[i] == 1, B8(99), B8(59)), 'all void @f%d()' % i) if i in sym else ('call void @f%d()' % i)
        other = ['store i32 %%%d, ptr %%x, align 4' % k if k % 7 else 'switch i32 %%%d, label %%b [' % k for k in range(body)]
        for k in range(0, body, 7): other[k + 1:k + 1 + 2] = ['  i32 %d, label %%bb%d' % (k, k), ']']
        for i in range(n): p.fn('f%d' % i, stack=8 * (i + 1), ir=['%y = tail call i64 @f0(ptr nonnull align 8 %x)' if i == n - 1 else 'br label %q'] * 2)
        p.fn('early', stack=8, ir=[line(i) for i in range(n)] + other)
        p.fn('late', stack=8, ir=other + [line(i) for i in reversed(range(n))] * 2)
        p.fn('sparse', stack=8, ir=[y for i in range(n) for y in [line(i), 'bb%d:                    ; preds = %%start, %%bb%d' % (i, i + 1)] + other[i * 4 % body // 7 * 7:][:7] if i in sym or i % 5 == 0 or ':' in y or ' ' in y and 'all' not in y])
        p.fill(s)
        w = lambda i: v[i] == 1 if i in sym else T
        E = {'early': {'f%d' % i: w(i) for i in range(n)}, 'late': {'f%d' % i: w(i) for i in range(n)}}
        E['sparse'] = {'f%d' % i: w(i) for i in range(n) if i in sym or i % 5 == 0}
        E['f%d' % (n - 1)] = {'f0': T}
        E['f1'] = {}
        s.truth['edges'], s.truth['ignore'] = E, ()
        return s
    return gen


def scenarios(tier):
    q = [
        dict(name='many', gen=many('my', OTHER32), oracle=edges_oracle, reach=['edges']),
        dict(name='forms', gen=forms('fo', OTHER32, 'plain'), oracle=edges_oracle, reach=['edges']),
        dict(name='forms-invoke', gen=forms('fi', LINUX, 'invoke'), oracle=edges_oracle, reach=['edges']),
        dict(name='forms-args', gen=forms('fa', 'thumbv7m-none-eabi', 'args'), oracle=edges_oracle, reach=['edges']) if tier == 'thorough' else
        dict(name='forms-args', gen=forms_args('fa', 'riscv32imc-unknown-none-elf'), oracle=edges_oracle, reach=['edges']),
        dict(name='forms-quoted', gen=forms('fq', LINUX, 'quoted'), oracle=edges_oracle, reach=['edges']),
        dict(name='repeats', gen=repeats('re', OTHER32), oracle=edges_oracle, reach=['edges']),
        dict(name='twins', gen=twins('tw', OTHER32), oracle=edges_oracle, reach=['edges']),
        dict(name='bitcast', gen=bitcasts('bc', OTHER32), oracle=edges_oracle, reach=['edges']),
        dict(name='live', gen=live('li', LINUX), oracle=live_oracle, reach=['edges']),
        dict(name='intrinsics', gen=intrinsics('in', LINUX), oracle=edges_oracle, reach=['edges']),
        dict(name='memcmp', gen=memcmp('mc', LINUX), oracle=edges_oracle, reach=['edges']),
        dict(name='both', gen=both('bo', LINUX), oracle=edges_oracle, reach=['edges']),
        dict(name='names', gen=names('na', OTHER32), oracle=names_oracle, reach=['edges']),
        dict(name='escapes', gen=escapes('es', OTHER32, True), oracle=escapes_oracle, reach=['edges']),
        dict(name='escapes-utf8', gen=escapes('eu', LINUX, False), oracle=escapes_oracle, reach=['edges']),
    ]
    return q


def forms_args(name, target):
    """every return type and every argument form, with fewer of the optional parts"""
    def gen(root):
        s = Scenario(root, name)
        p, c = base(s, target)
        rty, pty = s.var('rty', 3), s.var('pty', 3)
        callee = s.var('callee', 1)
        R = ['void', 'i32', 'ptr', '{ i32, i1 }', 'i1', '{ ptr, ptr }', '[2 x i64]', 'double']
        A = ['i32 %x', 'ptr @g', 'ptr null', 'i1 true', 'i64 -7', 'float 0x36A0000000000000', '{ i32, i32 } %s', 'ptr sret([16 x i8]) align 8 %s']
        c.ir = [cat('%z = call ', pick(rty, R), ' @f', z3.ZeroExt(7, callee) + 48, '(', pick(pty, A), '), !dbg !4')]
        p.fill(s)
        edges_only(s, 'c', {'f0': callee == 0, 'f1': callee == 1, 'f2': z3.BoolVal(False)})
        return s
    return gen


BOUNDS = 'three callers of up to 30 functions in bodies of up to 250 lines; one call statement with every combination of 6 optional parts, 8 return types and 8 argument forms; three consecutive calls to any of three functions; two names of one function, each with a body of two such calls; bitcast calls; all listed intrinsics; callee names with every identifier character, with any escaped ASCII character, two-byte UTF-8 sequence, backslash or mangling marker'
