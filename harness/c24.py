"""The result does not depend on how the system delivers input and output, and it is complete or the run fails (C24)."""
from c06 import pick, opt, OTHER32, LINUX
from c03 import edges_oracle
from c11 import parse_top
from prog import *
from rec import *
from runner import decide
import thumb as Tb, z3, os

T, F = z3.BoolVal(True), z3.BoolVal(False)
M7 = 'thumbv7m-none-eabi'
V = lambda x: z3.BitVecVal(x, 64)
NEVER = V(2**64 - 1)


def program(s, target, fmt):
    """four functions, a cycle, a call through a pointer, a name to escape; nothing in it is symbolic"""
    p = Program(target)
    th = thumb_target(target)
    if th:
        a = p.base
        p.fn('main', stack=8, ir=[], code=[0x80, 0xb5] + Tb.bl(a + 2, a + 8) + [0x80, 0xbd])
        p.fn('fa', stack=8, ir=[], code=[0x80, 0xb5] + Tb.bl(a + 10, a + 16) + [0x80, 0xbd])
        p.fn('fb', stack=0, ir=[], code=[0x70, 0x47])
        s.truth['edges'] = {'main': {'fa': T}, 'fa': {'fb': T}, 'fb': {}}
        s.truth['max'] = {'main': ('=', 16), 'fa': ('=', 8), 'fb': ('=', 0)}
        s.truth['local'] = {'main': 8, 'fa': 8, 'fb': 0}
    else:
        p.fn('main', stack=8, ir=['call void @fa()', 'call void @"we\\22ird"()' if not fmt else 'call void @fc()'])
        p.fn('fa', stack=24, ir=['call void @fb()'])
        p.fn('fb', stack=40, ir=['call void @fa()'])
        w = p.fn('we"ird' if not fmt else 'fc', stack=104, ir=[], where='builtins', declared=True)
        if not fmt: w.ir_name = '"we\\22ird"'
        w = 'we"ird' if not fmt else 'fc'
        s.truth['edges'] = {'main': {'fa': T, w: T}, 'fa': {'fb': T}, 'fb': {'fa': T}, w: {}}
        s.truth['max'] = {'main': ('>=', 112), 'fa': ('>=', 40), 'fb': ('>=', 40), w: ('=', 104)}
        s.truth['local'] = {'main': 8, 'fa': 24, 'fb': 40, w: 104}
    if fmt: s.args += [items('--format'), items(fmt)]
    s.truth['fmt'] = fmt
    p.fill(s)
    return p


def complete(c):
    """the whole result has been written"""
    t = c.T
    if t['fmt'] == 'top':
        mx, rows = parse_top(c.rec.out, c.rec)
        num = lambda x: z3.simplify(x).as_long() if not isinstance(x, int) else x
        got = [(num(a), show(b)) for a, b in rows]
        c.require(z3.BoolVal(num(mx) == max(v for _, v in t['max'].values())), 'the maximum differs')
        c.require(z3.BoolVal([a for a, _ in got] == sorted(t['local'].values(), reverse=True) and sorted((b, a) for a, b in got) == sorted(t['local'].items())), 'the listing differs')
        return
    edges_oracle(c)
    g = c.graph()
    for n, (op, v) in t['max'].items():
        x = g.by_name(n)
        if len(x) != 1:
            c.fail('%s is not shown' % n)
            continue
        x = x[0]
        c.require(x.local == v_(t['local'][n]) if x.local is not None else F, 'local usage of %s' % n)
        if x.max is None: c.fail('%s has no bound' % n)
        else:
            c.require(z3.BoolVal(bool(x.exact) == (op == '=')), 'the bound of %s is of another kind' % n)
            c.require(x.max == v_(v), 'the bound of %s' % n)


v_ = lambda x: z3.BitVecVal(x, 64)


def oracle(c):
    t = c.T
    D = lambda x: decide(c, x)
    limit, bad = t.get('limit'), t.get('bad', F)
    may = z3.Or(bad, t.get('may', F))
    one = t.get('once')
    if one is not None:
        c.tag = 'complete' if c.ok else 'failed'
        if c.ok:
            complete(c)
            c.tag = 'complete'
            return
        c.require(z3.ULE(one, len(c.rec.out)), 'the run fails although everything could be written')
        return
    if c.ok:
        c.require(z3.Not(bad), 'success although an input could not be read')
        if limit is not None and len(c.rec.out) == 0: c.fail('success without any output')
        try: complete(c)
        except (ValueError, IndexError): c.fail('success with a damaged result')
        c.tag = 'complete'
        return
    c.tag = 'failed'
    c.require(z3.BoolVal(c.rec.kind != 'exit' or c.rec.code != 0), 'success')
    if limit is None:
        c.require(may, 'the run fails although every input can be read: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))
        c.require(z3.BoolVal(not c.rec.out), 'a graph is printed although an input could not be read')
    else:
        # it only fails where writing did
        c.require(limit == len(c.rec.out), 'the run fails although everything could be written: %s %s %s' % (c.rec.kind, c.rec.code, (c.rec.msg or '')[:80]))


def limited(name, target, fmt, hi):
    """the standard output takes some number of bytes, then it fails; it takes few at a time or many, and may be interrupted"""
    def gen(root):
        s = Scenario(root, name)
        program(s, target, fmt)
        n, e, k = s.var('n', 12), s.var('e', 2), s.var('k', 1)
        s.assume(z3.ULE(n, hi))
        z = z3.ZeroExt(52, n)
        s.faults['out.limit'] = s.truth['limit'] = z
        s.faults['out.errno'] = z3.If(e == 0, V(28), z3.If(e == 1, V(32), z3.If(e == 2, V(5), V(11))))
        s.assume(z3.Implies(n != 0, z3.Or(e == z3.Extract(1, 0, n))))
        s.faults['out.chunk'] = z3.If(k == 1, V(7), V(0))
        s.assume(k == z3.Extract(2, 2, n))
        return s
    return gen


LONG = 'crate' + 'n' * 1100   # longer than any buffer of lines


def once(name, target, fmt):
    """one write to the standard output fails (the other end is not ready), later ones do not"""
    def gen(root):
        s = Scenario(root, name)
        p = Program(target)
        q, e = ('q', 'q') if fmt else ('"', '\\22')
        p.fn('main', stack=8, ir=['call void @%s()' % LONG, 'call void @"%s%s"()' % (LONG, e)])
        p.fn(LONG, stack=24, ir=[])
        w = p.fn(LONG + q, stack=104, ir=[], where='builtins', declared=True)
        w.ir_name = '"%s%s"' % (LONG, e)
        s.truth['edges'] = {'main': {LONG: T, LONG + q: T}, LONG: {}, LONG + q: {}}
        s.truth['max'] = {'main': ('=', 112), LONG: ('=', 24), LONG + q: ('=', 104)}
        s.truth['local'] = {'main': 8, LONG: 24, LONG + q: 104}
        if fmt: s.args += [items('--format'), items(fmt)]
        s.truth['fmt'] = fmt
        p.fill(s)
        n = s.var('n', 13)
        s.faults['out.once'] = s.truth['once'] = z3.ZeroExt(51, n)
        return s
    return gen


def older(s, stems):
    """IR of earlier builds, beside that of the last one"""
    path = [f for f in s.files if LL(f)][0]
    d = path.rsplit('/', 1)[0]
    s.mtimes[os.path.basename(path)] = 1000
    for i, k in enumerate(stems):
        f = d + '/app-' + k
        data = bytes(s.files[path])
        assert b'@fb()' in data
        s.add(f + '.ll', data.replace(b'call void @fb()', b'call void @fa()'))
        s.add(f + '.o', s.files[path[:-3] + '.o'])
        s.mtimes['app-' + k + '.ll'] = 10 + i
    return d


def refused(name, target, which, errors=(0, 2, 5, 13, 24), kind='open.err'):
    """a file exists and cannot be opened (examined, touched)"""
    def gen(root):
        s = Scenario(root, name)
        program(s, target, None)
        bad, ws = [], which
        if kind == 'stat.err':
            path = [f for f in s.files if LL(f)][0]
            d = older(s, ['0', 'z'])
            ws = [EXACT(path), EXACT(d + '/app-0.ll'), EXACT(d + '/app-z.ll')]
        for k, w in enumerate(ws):
            path = [f for f in s.files if w(f)][0]
            v = s.var('v%d' % k, 3)
            s.assume(z3.ULT(v, len(errors)))
            x = V(0)
            for j, e in enumerate(errors): x = z3.If(v == j, V(e), x)
            s.faults['%s:%s' % (kind, path)] = x
            bad.append(v != 0)
        if kind == 'touch.err': s.truth['bad'] = z3.And(bad)
        elif kind == 'stat.err': s.truth['may'] = z3.Or(bad)
        else:
            # one at a time
            for i in range(len(bad)):
                for j in range(i): s.assume(z3.Not(z3.And(bad[i], bad[j])))
            s.truth['bad'] = z3.Or(bad)
        return s
    return gen


def listing(name, target):
    """listing the directory fails after some of the entries"""
    def gen(root):
        s = Scenario(root, name)
        program(s, target, None)
        d = older(s, ['0', '1', 'y', 'z'])
        n = len({f[len(d) + 1:].split('/')[0] for f in s.files if f.startswith(d + '/')})
        v = s.var('v', 4)
        # after the last entry it may still fail
        s.faults['dir.err:' + d] = z3.ZeroExt(60, v)
        s.truth['may'] = z3.ULE(v, n)
        return s
    return gen


def pieces(name, target, fmt):
    """output and input in pieces of any of sixteen sizes, interrupted at any of 64 places"""
    def gen(root):
        s = Scenario(root, name)
        program(s, target, fmt)
        i, o = s.var('i', 6), s.var('o', 4)
        s.faults['out.chunk'] = z3.ZeroExt(60, o)
        s.faults['out.intr'] = z3.ZeroExt(58, i)
        s.assume(z3.Or(o == 0, o == z3.Extract(3, 0, i)))
        return s
    return gen


def reads(name, target, fmt):
    def gen(root):
        s = Scenario(root, name)
        program(s, target, fmt)
        i, o = s.var('i', 6), s.var('o', 3)
        sizes = [0, 1, 2, 3, 13, 64, 100, 1000]
        x = V(0)
        for k, v in enumerate(sizes): x = z3.If(o == k, V(v), x)
        s.faults['in.chunk'] = x
        s.faults['in.intr'] = z3.ZeroExt(58, i)
        s.assume(z3.Or(i == 0, o == 0, o == 5))
        return s
    return gen


def cargo_pipe(name, target):
    """what Cargo prints arrives in two pieces, cut anywhere"""
    def gen(root):
        s = Scenario(root, name)
        program(s, target, None)
        n = s.var('n', 10)
        s.assume(z3.ULE(n, 400))
        s.faults['pipe.cut'] = z3.ZeroExt(54, n)
        return s
    return gen


EXE = lambda f: f.endswith('/examples/app')
OBJ = lambda f: f.endswith('.o')
RLIB = lambda f: f.endswith('.rlib')
LL = lambda f: 'examples/app-' in f and f.endswith('.ll')
EXACT = lambda p: lambda f: f == p
SRC = lambda f: f.endswith('src/main.rs')
LLB = lambda f: 'compiler_builtins' in f and f.endswith('.ll')


def broken(name, target, which):
    """reading a file fails at some place"""
    def gen(root):
        s = Scenario(root, name)
        program(s, target, None)
        path = [f for f in s.files if which(f)][0]
        size = len(s.files[path])
        v = s.var('v', 7)
        at = z3.If(v == 127, NEVER, z3.UDiv(z3.ZeroExt(57, v) * size, V(126)))
        s.faults['in.err:' + path] = at
        s.truth['bad'] = v != 127
        return s
    return gen


def scenarios(tier):
    R = dict(oracle=oracle)
    B = dict(oracle=oracle, reach=['complete', 'failed'])
    q = [
        dict(name='full-dot', gen=limited('fd', OTHER32, None, 420), **B),
        dict(name='full-top', gen=limited('ft', OTHER32, 'top', 70), **B),
        dict(name='full-thumb', gen=limited('fh', M7, None, 220), **B),
        dict(name='once-dot', gen=once('od', LINUX, None), **B),
        dict(name='once-top', gen=once('ot', OTHER32, 'top'), **B),
        dict(name='pieces-dot', gen=pieces('pd', OTHER32, None), reach=['complete'], **R),
        dict(name='pieces-top', gen=pieces('pt', LINUX, 'top'), reach=['complete'], **R),
        dict(name='reads', gen=reads('rd', OTHER32, None), reach=['complete'], **R),
        dict(name='reads-thumb', gen=reads('rt', M7, 'top'), reach=['complete'], **R),
        dict(name='cargo', gen=cargo_pipe('cp', LINUX), reach=['complete'], **R),
        dict(name='broken-executable', gen=broken('be', OTHER32, EXE), **B),
        dict(name='broken-object', gen=broken('bo', LINUX, OBJ), **B),
        dict(name='broken-archive', gen=broken('ba', OTHER32, RLIB), **B),
        dict(name='broken-ir', gen=broken('bi', OTHER32, LL), **B),
        dict(name='broken-builtins-ir', gen=broken('bb', OTHER32, LLB), **B),
        dict(name='refused', gen=refused('ro', OTHER32, [EXE, OBJ, RLIB, LL, LLB]), **B),
        dict(name='refused-examine', gen=refused('re', LINUX, [LL], kind='stat.err'), reach=['complete'], **R),
        dict(name='refused-touch', gen=refused('rt', OTHER32, [SRC], kind='touch.err'), reach=['complete'], **R),
        dict(name='listing', gen=listing('ls', OTHER32), reach=['complete'], **R),
    ]
    return q


BOUNDS = 'one program of four functions with a cycle (three for Thumb): the standard output fails after any number of bytes with one of four errors, takes at most 1 to 15 bytes at a time, is interrupted at any of the first 63 writes; files and pipes give at most 1, 2, 3, 13, 64, 100 or 1000 bytes at a time; any of the first 63 reads of pipes is interrupted; what Cargo prints is cut anywhere into two pieces; reading each of the five files fails at any of 127 places; one write fails and later ones do not, with names of more than 1000 characters; opening any of the five files, examining the IR file, touching the source fails with one of four errors; listing the directory fails after any number of entries'
