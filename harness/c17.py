"""Input the tool cannot interpret: it fails and prints no graph."""
from c06 import pick, opt, bit, B8, OTHER32, LINUX
from c03 import edges_oracle
from prog import *
from rec import *
from runner import decide
import thumb as Tb, z3

T, F = z3.BoolVal(True), z3.BoolVal(False)
ARM7 = 'thumbv7m-none-eabi'


def quiet(c, when=True):
    """no graph, and a failure status"""
    c.require(not c.rec.out, 'something is printed although the analysis failed')
    if c.rec.kind == 'exit': c.require(c.rec.code != 0, 'success without a graph')


def oracle(c):
    """truth: `edges` as in edges_oracle (each condition is what the input means, if it means anything);
    `bad`: the input cannot mean anything"""
    if not c.ok:
        c.tag = 'refused'
        quiet(c)
        return
    bad = c.T.get('bad', F)
    c.require(z3.Not(bad), c.T.get('what', 'a graph is printed although the input cannot be understood'))
    g = c.graph()
    ids = {}
    for n in g.nodes.values(): ids.setdefault(show(n.name), []).append(n.id)
    for caller, want in c.T.get('edges', {}).items():
        if len(ids.get(caller, [])) != 1:
            c.fail('%s is not shown' % caller, z3.Not(bad))
            continue
        names = [show(g.nodes[b].name) for a, b in g.edges if a == ids[caller][0]]
        for callee, cond in want.items():
            if callee not in names: c.require(z3.Implies(z3.Not(bad), z3.Not(cond)), 'the graph misses the call of %s by %s' % (callee, caller))
    c.tag = 'graph'


def std(s, target, n=3):
    p = Program(target)
    for i in range(n): p.fn('f%d' % i, stack=8 * (i + 1), ir=[])
    return p, p.fn('c', stack=4, ir=[])


# ---- one byte of a call statement is anything
STM = {
    'plain': 'call void @f0(i32 %1)',
    'assign': '%_4.i = tail call noundef i32 @f0(ptr noundef nonnull align 4 %0, i32 1) #7',
    'fast': 'tail call fastcc { i32, ptr } @f0({ i32, i1 } %s), !dbg !4',
    'quoted': 'call zeroext i1 @"f0"(i64 -1)',
    'invoke': '%5 = invoke noundef i32 @f0(ptr %0)',
    'bitcast': '%8 = call i32 bitcast (void (i32)* @f0 to i32 ()*)() #6, !dbg !1177',
    'array': 'call [2 x i64] @f0(float 1.0)',
    'fnty': 'call void (i8*, ...) @f0(i8* %0, i32 3)',
}


def key_span(st):
    k = 'invoke' if 'invoke' in st else 'call'
    a = st.index(k)
    return a - 1, a + len(k) + 1      # the word and a blank on either side


def span(text):
    """positions of the callee's name"""
    a = text.index('@') + 1
    if text[a] == '"': a += 1
    return a, a + 2


def mutate(name, target, key, lo=0.0, hi=1.0, n=1, place=None):
    """n bytes at free positions of the statement are anything, outside the words call / invoke and the blanks around them"""
    def gen(root):
        s = Scenario(root, name)
        p, c = std(s, target)
        st = STM[key]
        line = '  ' + st
        a, b = key_span(line)
        na, nb = span(line)
        pos = [i for i in range(2, len(line)) if not a <= i < b]
        end = line.index('(', nb)
        if 'bitcast' in st: end = line.index(')()')
        pos = [i for i in pos if i <= end + 2]
        pos = pos[int(len(pos) * lo):int(len(pos) * hi)] if place is None else place(pos, line)
        out = [ord(x) for x in line[2:]]
        ps, bs = [], []
        for k in range(n):
            q, v = s.var('p%d' % k, 8), s.var('b%d' % k, 8)
            s.assume(z3.Or([q == i for i in pos]))
            s.assume(z3.ULT(v, 128))
            ps.append(q); bs.append(v)
        if n == 2: s.assume(z3.ULT(ps[0], ps[1]))
        for k in range(n):
            for i in pos:
                o = out[i - 2]
                o = B8(o) if isinstance(o, int) else o
                out[i - 2] = z3.If(ps[k] == i, bs[k], o)
        c.ir = ['store i32 0, ptr %0, align 4', out, 'br label %bb9']
        # a comment sign in front of the call removes it
        for k in range(n): s.assume(z3.Not(z3.And(z3.ULT(ps[k], a), z3.Or(bs[k] == 59, bs[k] == 10, bs[k] == 13))))
        # another sigil makes it a call through a pointer
        at = line.index('@')
        for k in range(n): s.assume(z3.Not(z3.And(ps[k] == at, bs[k] == 37)))
        p.fill(s)
        # which function the text names now
        cur = [out[i - 2] if not isinstance(out[i - 2], int) else B8(out[i - 2]) for i in range(na, nb)]
        # a name that goes on, starts elsewhere or is quoted otherwise is another name: only judge the plain cases
        same = z3.And([z3.Or(ps[k] < na, ps[k] > nb) for k in range(n)])
        s.truth['edges'] = {'c': {'f%d' % i: z3.Or(same if i == 0 else F, z3.And([x == ord(y) for x, y in zip(cur, 'f%d' % i)])) for i in range(3)}}
        # a two-letter identifier that names no function
        ident = lambda x: z3.Or(z3.And(z3.UGE(x, 97), z3.ULE(x, 122)), z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x == 95)
        known = z3.Or([z3.And([x == ord(y) for x, y in zip(cur, 'f%d' % i)]) for i in range(3)])
        s.truth['bad'] = F if key == 'bitcast' else z3.And(ident(cur[0]), z3.Or(ident(cur[1]), z3.And(z3.UGE(cur[1], 48), z3.ULE(cur[1], 57))), z3.Not(known), z3.And([z3.And(z3.UGE(ps[k], na), z3.ULT(ps[k], nb)) for k in range(n)]))
        return s
    return gen


# ---- valid IR, supported by the tool or not: the call must not be missed
ODD = ['musttail call void @f0()', 'notail call void @f0()', 'call void @f0() [ "deopt"(i32 1) ]', 'call addrspace(1) void @f0()', 'call fast float @f0(float %y)',
       'call <4 x i32> @f0(<4 x i32> %v)', 'call void @f0(ptr inttoptr (i32 4 to ptr))', 'call void @f0(ptr getelementptr inbounds (i8, ptr @g, i32 4))',
       'call void @f0(float 1.000000e+00)', 'call void @f0(%T { i32 1 })', 'call cc 10 void @f0()', 'call noundef void @f0()', 'call range(i32 0, 4) i32 @f0()',
       'call nofpclass(nan) float @f0()', 'call align 8 ptr @f0()', 'call dereferenceable(4) ptr @f0()', 'call x86_fp80 @f0()', 'call half @f0()', 'call i128 @f0()',
       'call void @f0(metadata i32 %x)', 'call void @f0(i32 zeroext 1, ...)', 'call void (...) @f0(i32 1)', 'call ptr addrspace(3) @f0()', 'call <{ i8, i32 }> @f0()',
       'call %"S<T>" @f0()', 'call %S* @f0()', 'call token @f0()', 'call { } @f0()', 'call {} @f0()', 'call [0 x i8] @f0()', 'call <vscale x 4 x i32> @f0()', 'call void () @f0()']
INV = ['invoke void bitcast (i8* @f0 to void ()*)()', 'invoke fastcc void bitcast (i8* @f0 to void ()*)()', 'invoke cc 10 void @f0()', 'callbr void @f0()', 'callbr void asm "", ""()', 'invoke void asm sideeffect "bl f0", ""()',
       'invoke x86_fp80 @f0()', 'invoke void @f0(i32 %1)', 'invoke <2 x i64> @f0()', 'invoke [2 x ptr] @f0()', 'invoke void (i32, ...) @f0(i32 1)', 'invoke addrspace(1) void @f0()']
IND = ['call void %0(<4 x i32> %v)', 'call void %0(float 1.000000e+00)', 'call void %0(ptr inttoptr (i32 4 to ptr))', 'call void %0(i32 zeroext %1, x86_fp80 %2)', 'musttail call void %0(i32 %1)',
       'call cc 10 void %0()', 'call void %0() [ "kcfi"(i32 4) ]', 'call <4 x i32> %0()', 'invoke void %0(half %1)', 'call addrspace(1) void %0()', 'call void %0(ptr blockaddress(@f0, %bb1))', 'call void %0(i32 ptrtoint (ptr @g to i32))',
       'call void inttoptr (i32 64 to ptr)()', 'tail call i32 inttoptr (i64 64 to i32 ()*)(i32 1)', 'call void %"a b"()', 'call void null()', 'call void undef()', 'call void getelementptr (i8, ptr @f0, i32 1)()']


def odd(name, target, texts, want=True, assign=True):
    def gen(root):
        s = Scenario(root, name)
        p, c = std(s, target)
        k, a = s.var('k', 6), s.var('a', 1)
        s.assume(z3.ULT(k, len(texts)))
        c.ir = ['store i32 0, ptr %0, align 4', opt(a, '%7 =') + items(' ') + pick(k, texts) + items(' #1')] if assign else ['store i32 0, ptr %0, align 4', pick(k, texts) + items(' #1')]
        p.fill(s)
        asm = z3.Or([k == i for i, t in enumerate(texts) if ' asm ' in t] or [F])
        s.truth['bad'] = asm
        if want: s.truth['edges'] = {'c': {'f0': z3.Not(asm)}}
        else: s.truth['some'] = True
        return s
    return gen


def indirect_oracle(c):
    oracle(c)
    if not c.ok: return
    g = c.graph()
    ci = g.by_name('c')[0].id
    c.require(len([1 for a, b in g.edges if a == ci]) >= 1, 'the graph misses an indirect call')


# ---- unknown intrinsics
LISTED = ['abs.', 'bswap.', 'ctlz.', 'cttz.', 'sadd.with.overflow.', 'smul.with.overflow.', 'ssub.with.overflow.', 'uadd.sat.', 'uadd.with.overflow.', 'umax.', 'umin.', 'umul.with.overflow.', 'usub.sat.',
          'usub.with.overflow.', 'vector.reduce.', 'x86.sse2.pmovmskb.', 'dbg.', 'memcpy.', 'memmove.', 'memset.', 'lifetime.start', 'lifetime.end', 'assume', 'trap', 'experimental.noalias.scope.decl']
NOCALL = LISTED


def intrinsic(name, target, base, places):
    """bytes of an intrinsic's name are anything: intrinsics that may become calls must not be ignored"""
    def gen(root):
        s = Scenario(root, name)
        p, c = std(s, target)
        nm = [ord(x) for x in 'llvm.' + base]
        for j, i in enumerate(places):
            v = s.var('b%d' % j, 8)
            s.assume(z3.Or(z3.And(z3.UGE(v, 97), z3.ULE(v, 122)), z3.And(z3.UGE(v, 48), z3.ULE(v, 57)), v == 46, v == 95, v == 45))
            nm[5 + i] = v
        c.ir = [cat('%3 = call i32 @', nm, '(i32 %1, i32 %2)')]
        p.fill(s)
        L = lambda x: B8(x) if isinstance(x, int) else x
        def pre(t): return z3.And([L(x) == ord(y) for x, y in zip(nm[5:], t)]) if len(t) <= len(base) else F
        s.truth['bad'] = z3.Not(z3.Or([pre(t) for t in NOCALL]))
        s.truth['what'] = 'an intrinsic that may become a call is ignored'
        return s
    return gen


UNKNOWN = ['sqrt.f64', 'fma.f32', 'sin.f32', 'powi.f64.i32', 'smax.i32', 'smin.i32', 'ctpop.i32', 'fshl.i32', 'sadd.sat.i32', 'ssub.sat.i32', 'udiv.fix.i32', 'memcpy_x', 'memsett.p0', 'absx.i32', 'abs', 'coro.size.i32',
           'fptosi.sat.i32.f64', 'rint.f64', 'objectsize.i64.p0', 'load.relative.i32', 'dbgx', 'experimental.noalias.scope.declx', 'x86.sse2.pausex', 'umaxx.i32', 'bitreverse.i32', 'is.constant.i32', 'eh.typeid.for', 'masked.load.v4i32']


def unknown(name, target):
    def gen(root):
        s = Scenario(root, name)
        p, c = std(s, target)
        k = s.var('k', 5)
        s.assume(z3.ULT(k, len(UNKNOWN)))
        n = max(map(len, UNKNOWN))
        c.ir = [cat('%3 = call double @llvm.', pick(k, [u + '(i32 %1)'.ljust(8 + n - len(u)) for u in UNKNOWN]))]
        p.fill(s)
        s.truth['bad'] = T
        s.truth['what'] = 'an intrinsic that may become a call is ignored'
        return s
    return gen


# ---- the lines around the statements: definitions, declarations, other items
def header(name, target, line, lo=0.0, hi=1.0, avoid=('@',)):
    """one byte of the `define` line of the caller is anything (its name aside)"""
    def gen(root):
        s = Scenario(root, name)
        p, c = std(s, target)
        c.sig = ('void', [])
        p.fns.remove(c)
        c.ir = None
        p.fns.append(c)
        at = line.index('@c')
        pos = [i for i in range(len(line)) if not at <= i <= at + 2]
        pos = pos[int(len(pos) * lo):int(len(pos) * hi)]
        q, v = s.var('p', 8), s.var('b', 8)
        s.assume(z3.Or([q == i for i in pos]), z3.ULT(v, 128))
        out = [z3.If(q == i, v, B8(ord(x))) if i in pos else ord(x) for i, x in enumerate(line)]
        p.extra_ir = [out, 'start:', '  call void @f0(i32 %0)', '  ret void', '}', '']
        p.fill(s)
        s.truth['edges'] = {'c': {'f0': T}}
        return s
    return gen


def lines(name, target):
    """lines that are no items, in between"""
    def gen(root):
        s = Scenario(root, name)
        p, c = std(s, target)
        c.ir = ['call void @f0()']
        k = s.var('k', 3)
        L = ['; nothing', 'define void @c() {', 'xyz', '}', '  call void @f1()', 'start:', 'ret void', '  ret void']
        p.extra_ir = [pick(k, L) + [10]]
        p.fill(s)
        s.truth['bad'] = k != 0
        s.truth['edges'] = {'c': {'f0': T}}
        return s
    return gen


# ---- items that are unusual or wrong, before, between and after the functions
TOP = ['declare i32 @odd(x86_amx)', 'declare void @odd(i32 range(i32 0, 4) %x)', 'define x86_amx @odd() {\n ret x86_amx zeroinitializer\n}', 'define void @odd(ptr captures(none) %x) {\n ret void\n}',
       '@odd = weak odr strange alias void (), ptr @f0', '@odd = unnamed_addr alias i32 (), ptr @f0', '@odd = ifunc void (), ptr @f0', '%odd type { i32 }', '$odd = comdat any', 'uselistorder ptr @f0, { 1, 0 }',
       '^0 = module: (path: "x", hash: (0, 0, 0, 0, 0))', 'target odd = "x"', 'source_filename "x"', 'declare @odd()', 'define @odd() {', 'declare', 'define', '@odd = ', '!', 'attributes', '%T = type opaque', '@s = external global [4 x i8], align 1',
       'module asm ".global x"', 'declare void @odd(i32, ...) #1', 'declare noundef nonnull ptr @odd(i32 noundef, ptr byval(i32))', '; a comment', '!9 = !{}', '@odd = hidden alias void (), void ()* @f0', 'declare void @odd(metadata, i64 immarg)', '}', '{', '\x7f', 'define void @odd() { ret void }', 'call void @f0()', 'module asm', 'declare !dbg !5 void @odd()']


def top(name, target):
    """the calls of the functions that follow such an item must not be lost"""
    def gen(root):
        s = Scenario(root, name)
        p, c = std(s, target)
        c.ir = ['call void @f0()']
        k = s.var('k', 6)
        s.assume(z3.ULT(k, len(TOP)))
        p.fn('d', stack=4, ir=None, sig=None)
        n = max(map(len, TOP))
        p.extra_ir = [pick(k, [t.rjust(n, '\n') for t in TOP]), 'define void @d() {', 'start:', '  call void @f1()', '  ret void', '}', '']
        p.fill(s)
        s.truth['edges'] = {'c': {'f0': T}, 'd': {'f1': T}}
        return s
    return gen


# ---- files that end early or are missing
def cut(name, target, which, step=1):
    def gen(root):
        s = Scenario(root, name)
        p, c = std(s, target)
        c.ir = ['call void @f0()']
        b = p.fn('b0', stack=12, where='builtins', ir=[])
        p.fill(s)
        path = [f for f in s.files if which(f)][0]
        size = len(s.files[path])
        n = s.var('n', 64)
        M = z3.BitVecVal(2**64 - 1, 64)
        if name in ('ll', 'llb'):
            # somewhere inside a function
            text = bytes(x if isinstance(x, int) else 0 for x in s.files[path])
            a, z = text.index(b'define'), text.index(b'}\n')
            s.assume(z3.Or(n == M, z3.And(z3.UGT(n, a), z3.ULE(n, z))))
        else: s.assume(z3.Or(n == M, z3.ULT(n, size)))
        if path.endswith('.rlib'):
            # an archive cut between two members is a shorter archive
            b = bytes(x if isinstance(x, int) else 0 for x in s.files[path])
            i = 8
            while i <= size:
                s.assume(n != i)
                i += 60 + int(b[i + 48:i + 58] or b'0')
                s.assume(n != i)
                i += i & 1
        if step > 1: s.assume(z3.Or(n == M, z3.URem(n, z3.BitVecVal(step, 64)) == size % step))
        s.lengths[path] = n
        s.truth['bad'] = T
        s.truth['what'] = 'a graph is printed although a file is missing or ends early'
        return s
    return gen


EXE = lambda f: f.endswith('/examples/app')
OBJ = lambda f: f.endswith('.o')
RLIB = lambda f: f.endswith('.rlib')
LL = lambda f: 'examples/app-' in f and f.endswith('.ll')
LLB = lambda f: 'compiler_builtins' in f and f.endswith('.ll')


# ---- machine code that branches to where nothing is known to be
def nowhere(name, target, tail):
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        lo, hi = s.var('lo', 8), s.var('hi', 3)
        a = p.base
        # imm11 of the second halfword, J1 = J2 = 1
        imm = z3.Concat(hi, lo)
        h2 = z3.Concat(z3.BitVecVal(0b11111 if not tail else 0b10111, 5), imm)
        code = [0x80, 0xb5] + [0x00, 0xf0, z3.Extract(7, 0, h2), z3.Extract(15, 8, h2)] + [0x80, 0xbd]
        p.fn('c', stack=8, ir=[], code=code)
        for i in range(3): p.fn('f%d' % i, stack=16, ir=[], code=[0xb0, 0xb5] + [0xc0, 0x46] * 2 + [0xb0, 0xbd])
        p.fill(s)
        off = z3.ZeroExt(20, z3.Concat(imm, z3.BitVecVal(0, 1)))
        dst = off + (a + 2 + 4)
        ent = {'f%d' % i: p.fns[1 + i].addr for i in range(3)}
        inside = z3.And(z3.UGE(dst, a), z3.ULT(dst, a + 8))
        s.truth['edges'] = {'c': {k: dst == v for k, v in ent.items()}}
        s.truth['bad'] = z3.Not(z3.Or([dst == v for v in ent.values()] + [inside if tail else dst == a]))
        s.truth['what'] = 'a branch to an unknown place is ignored'
        return s
    return gen


def scenarios(tier):
    q = []
    th = tier == 'thorough'
    for k in STM:
        q.append(dict(name='call-' + k, gen=mutate('m' + k, OTHER32 if k != 'invoke' else LINUX, k), oracle=oracle, reach=['graph', 'refused']))
    q += [
        dict(name='odd', gen=odd('od', OTHER32, ODD), oracle=oracle, reach=['graph', 'refused']),
        dict(name='odd-invoke', gen=odd('oi', LINUX, INV), oracle=oracle, reach=['graph', 'refused']),
        dict(name='odd-pointer', gen=odd('op', LINUX, IND, want=False), oracle=indirect_oracle, reach=['graph', 'refused']),
        dict(name='unknown', gen=unknown('un', LINUX), oracle=oracle, reach=['refused']),
        dict(name='intrinsic', gen=intrinsic('i1', LINUX, 'umax.i32', [0, 1]), oracle=oracle, reach=['graph', 'refused']),
        dict(name='intrinsic-end', gen=intrinsic('i2', OTHER32, 'usub.sat.i32', [4, 8]), oracle=oracle, reach=['graph', 'refused']),
        dict(name='intrinsic-prefix', gen=intrinsic('i3', LINUX, 'abs.i32', [3]), oracle=oracle, reach=['graph', 'refused']),
        dict(name='define', gen=header('de', OTHER32, 'define internal fastcc void @c(i32 noundef %0, ptr %1) unnamed_addr #0 {'), oracle=oracle, reach=['graph', 'refused']),
        dict(name='lines', gen=lines('li', OTHER32), oracle=oracle, reach=['graph', 'refused']),
        dict(name='items', gen=top('it', OTHER32), oracle=oracle, reach=['graph', 'refused']),
        dict(name='items-linux', gen=top('il', LINUX), oracle=oracle, reach=['graph', 'refused']),
        dict(name='executable', gen=cut('exe', OTHER32, EXE, 1 if th else 5), oracle=oracle, reach=['refused']),
        dict(name='executable-thumb', gen=cut('ext', ARM7, EXE, 1 if th else 5), oracle=oracle, reach=['refused']),
        dict(name='object', gen=cut('obj', OTHER32, OBJ, 1 if th else 7), oracle=oracle, reach=['refused']),
        dict(name='archive', gen=cut('ar', LINUX, RLIB, 1 if th else 5), oracle=oracle, reach=['refused']),
        dict(name='ll', gen=cut('ll', OTHER32, LL), oracle=oracle, reach=['refused']),
        dict(name='llb', gen=cut('llb', OTHER32, LLB), oracle=oracle, reach=['refused']),
        dict(name='bl', gen=nowhere('bl', ARM7, False), oracle=oracle, reach=['graph', 'refused']),
        dict(name='b', gen=nowhere('bw', ARM7, True), oracle=oracle, reach=['graph', 'refused']),
    ]
    return q


BOUNDS = 'eight call statements with any ASCII byte at any one place outside the words call and invoke; 62 further spellings of calls; names of intrinsics with two free bytes and 28 unknown ones; any ASCII byte anywhere in a definition line; 36 further top-level items before a definition; every length (thorough; every fifth or seventh in quick) of the executable, the object file, the archive (member boundaries aside), and of the IR within a function; branches over 11 bits of offset to anywhere. An IR file that ends between two items and an archive that ends between two members are outside'
