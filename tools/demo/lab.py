"""A firmware project as Cargo would have built it, with stand-ins for cargo and rustc, in a scratch directory.
Everything the tool touches (it updates the times of a source file) is inside that directory."""
import os, re, shutil, struct, subprocess, sys, tempfile

TOOL = os.path.join(os.getcwd(), 'target/debug/cargo-call-stack')
HASH = '2b603f95a48f10f931a61dd208fe3e5ffd64e491'
RET = [0x70, 0x47]


def le(v, n): return list((v & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))


def uleb(v):
    o = []
    while True:
        x = v & 127
        v >>= 7
        o.append(x | (128 if v else 0))
        if not v: return o


class Elf:
    def __init__(self, cls, etype, machine):
        self.cls, self.etype, self.machine, self.secs, self.syms = cls, etype, machine, [], []

    def sec(self, name, data, type=1, flags=0, addr=0, link=0, info=0, align=4, entsize=0):
        self.secs.append(dict(name=name, type=type, flags=flags, addr=addr, data=list(data), link=link, info=info, align=align, entsize=entsize))
        return len(self.secs)

    def sym(self, name, value, size=0, info=0x12, shndx=1):
        self.syms.append((name, value, size, info, shndx))
        return len(self.syms)

    def build(self):
        c32 = self.cls == 32
        strt, sd = [0], [0] * (16 if c32 else 24)
        for name, value, size, info, shndx in self.syms:
            n = len(strt) if name else 0
            if name: strt += list(name.encode()) + [0]
            if c32: sd += le(n, 4) + le(value, 4) + le(size, 4) + [info, 0] + le(shndx, 2)
            else: sd += le(n, 4) + [info, 0] + le(shndx, 2) + le(value, 8) + le(size, 8)
        secs = list(self.secs)
        nsym = len(secs) + 1
        secs.append(dict(name='.symtab', type=2, flags=0, addr=0, data=sd, link=nsym + 1, info=1, align=8, entsize=16 if c32 else 24))
        secs.append(dict(name='.strtab', type=3, flags=0, addr=0, data=strt, link=0, info=0, align=1, entsize=0))
        for s in secs:
            if s['link'] == 'symtab': s['link'] = nsym
        sh = [0]
        secs.append(dict(name='.shstrtab', type=3, flags=0, addr=0, data=None, link=0, info=0, align=1, entsize=0))
        for s in secs:
            s['n'] = len(sh)
            sh += list(s['name'].encode()) + [0]
        secs[-1]['data'] = sh
        hs, es = (52, 40) if c32 else (64, 64)
        out = [0] * hs
        for s in secs:
            while len(out) % 8: out.append(0)
            s['off'] = len(out)
            out += s['data']
        while len(out) % 8: out.append(0)
        shoff = len(out)
        out += [0] * es
        for s in secs:
            v = (s['n'], s['type'], s['flags'], s['addr'], s['off'], len(s['data']), s['link'], s['info'], s['align'], s['entsize'])
            out += list(struct.pack('<IIIIIIIIII' if c32 else '<IIQQQQIIQQ', *v))
        n = len(secs) + 1
        ident = bytes([0x7f, 0x45, 0x4c, 0x46, 1 if c32 else 2, 1, 1, 0] + [0] * 8)
        h = ident + struct.pack('<HHIIIIIHHHHHH' if c32 else '<HHIQQQIHHHHHH', self.etype, self.machine, 1, 0, 0, shoff, 0, hs, 0, 0, es, n, n - 1)
        out[:hs] = list(h)
        return bytes(out)


def stack_object(recs, cls, thumb):
    """recs: [(name, size)], each function in a section of its own"""
    e = Elf(cls, 1, 40 if cls == 32 else 62)
    w = cls // 8
    ts = [e.sec('.text.f%d' % i, [0] * 4, flags=6) for i in range(len(recs))]
    ss = [e.sym('', 0, 0, 3, t) for t in ts]
    for (name, _), t in zip(recs, ts): e.sym(name, 1 if thumb else 0, 4, 0x12, t)
    d, r = [], []
    for (_, size), sy in zip(recs, ss):
        r += le(len(d), 4) + le((sy << 8) | 2, 4) if cls == 32 else le(len(d), 8) + le((sy << 32) | 1, 8)
        d += [0] * w + uleb(size)
    k = e.sec('.stack_sizes', d, flags=0x80, align=1)
    e.sec('.rel.stack_sizes', r, type=9, flags=0x40, link='symtab', info=k, entsize=2 * w)
    return e.build()


def ar(members):
    out, longs = b'!<arch>\n', b''
    names = []
    for n, d in members:
        if len(n) > 15:
            names.append('/%d' % len(longs))
            longs += n.encode() + b'/\n'
        else: names.append(n + '/')
    hd = lambda n, size: ('%-16s%-12d%-6d%-6d%-8s%-10d`\n' % (n, 0, 0, 0, '100644', size)).encode()
    if longs: out += hd('//', len(longs)) + longs + b'\n' * (len(longs) % 2)
    for n, (_, d) in zip(names, members): out += hd(n, len(d)) + d + b'\n' * (len(d) % 2)
    return out


class Graph:
    def __init__(self, dot):
        self.nodes, self.edges, self.clusters = {}, [], []
        cl = None
        for l in dot.splitlines():
            m = re.match(r'    (\d+) \[label="(.*?)(?:\\nmax (.*?))?\\nlocal = (\d+|\?)"( style=dashed)?\]$', l)
            if m:
                self.nodes[int(m[1])] = dict(name=m[2], max=m[3], local=m[4], dashed=bool(m[5]))
                continue
            m = re.match(r'    (\d+) -> (\d+)$', l)
            if m:
                self.edges.append((int(m[1]), int(m[2])))
                continue
            if 'subgraph cluster_' in l: cl = []
            elif cl is not None and re.match(r'        (\d+)$', l): cl.append(int(l))
            elif cl is not None and l == '    }':
                self.clusters.append(cl)
                cl = None

    def get(self, name): return [n for n in self.nodes.values() if n['name'] == name]
    def names(self): return sorted(n['name'] for n in self.nodes.values())
    def pairs(self): return sorted((self.nodes[a]['name'], self.nodes[b]['name']) for a, b in self.edges)


class Lab:
    def __init__(self, target='thumbv7m-none-eabi', kind='example', name='app', flag=True):
        self.target, self.kind, self.name, self.flag = target, kind, name, flag
        self.thumb = target.startswith('thumb')
        self.cls = 32 if target.startswith(('thumb', 'arm', 'riscv32')) else 64
        self.fns, self.undef, self.syms, self.extra_ir, self.builtins_ir = [], [], [], [], []
        self.cargo_stderr, self.cargo_status, self.hash, self.markers = '', 0, HASH, True
        self.dir = tempfile.mkdtemp(prefix='lab')
        self.proj = os.path.join(self.dir, 'proj')
        self.base, self.args, self.env, self.os = 0x08000400, [], {}, 'none' if 'none' in target else 'linux'
        self.tags = True
        self.config = None
        self.members = None
        self.stamp = 'a1b2c3d4e5f60718'
        self.tdir = None
        self.after = []       # callables run once the project is written

    def fn(self, name, code=None, stack=None, ir=None, sig=('void', []), aliases=(), size=None, where='app', declared=False, dead=False, marks=(), recorded=True):
        f = dict(name=name, code=list(code or RET), stack=stack, ir=ir, sig=sig, aliases=list(aliases), size=size, where=where, declared=declared, dead=dead, marks=list(marks), addr=None)
        self.fns.append(f)
        return f

    def write(self, path, data):
        p = os.path.join(self.proj, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as h: h.write(data if isinstance(data, bytes) else data.encode())
        return p

    def layout(self):
        a = self.base
        for f in self.fns:
            if f['dead']: continue
            f['addr'] = f['addr'] or a
            a = (f['addr'] + max(f['size'] or 0, len(f['code'])) + 3) // 4 * 4

    def addr(self, name):
        self.layout()
        return next(f['addr'] for f in self.fns if f['name'] == name)

    def exe(self):
        self.layout()
        live = [f for f in self.fns if not f['dead']]
        e = Elf(self.cls, 2, 40 if self.cls == 32 else 62)
        text = [0] * (max(f['addr'] + len(f['code']) for f in live) - self.base)
        for f in live:
            o = f['addr'] - self.base
            text[o:o + len(f['code'])] = f['code']
        e.sec('.text', text, flags=6, addr=self.base)
        if self.thumb and self.tags:
            for i, f in enumerate(live):
                if (0, 'd') not in f['marks']: e.sym('$t.%d' % i, f['addr'], 0, 0)
                for o, k in f['marks']: e.sym('$%s.%d' % (k, i), f['addr'] + o, 0, 0)
        for s in self.syms: e.sym(*s)
        for f in live:
            for n in [f['name']] + f['aliases']:
                e.sym(n, f['addr'] | (1 if self.thumb else 0), len(f['code']) if f['size'] is None else f['size'], 0x12)
        for n in self.undef: e.sym(n, 0, 0, 0x12, 0)
        return e.build()

    def ir(self, where):
        o = '; ModuleID = \'x\'\nsource_filename = "x"\ntarget datalayout = "e-m:e-p:32:32"\ntarget triple = "%s"\n\n' % self.target
        o += ''.join(l + '\n' for l in (self.extra_ir if where == 'app' else self.builtins_ir))
        for f in self.fns:
            if f['where'] != where: continue
            if f['ir'] is not None:
                ps = ', '.join('%s %%%d' % (p, i) for i, p in enumerate(f['sig'][1]))
                o += 'define %s @%s(%s) unnamed_addr #0 {\nstart:\n%s  ret void\n}\n\n' % (f['sig'][0], f['name'], ps, ''.join('  %s\n' % s for s in f['ir']))
            elif f['declared']:
                o += 'declare %s @%s(%s) unnamed_addr #0\n\n' % (f['sig'][0], f['name'], ', '.join(f['sig'][1]))
        return o + 'attributes #0 = { nounwind }\n\n!llvm.module.flags = !{!0}\n\n!0 = !{i32 7, !"PIC Level", i32 2}\n'

    def build(self):
        os.makedirs(os.path.join(self.dir, 'bin'))
        td = self.tdir or 'target/%srelease/' % (self.target + '/')
        ad = td + ('examples/' if self.kind == 'example' else '')
        ld = td + ('examples/' if self.kind == 'example' else 'deps/')
        und = self.name.replace('-', '_')
        self.write('Cargo.toml', '[package]\nname = "proj"\nversion = "0.1.0"\nedition = "2021"\n')
        self.write('src/main.rs', 'fn main() {}\n')
        if self.config: self.write('.cargo/config', self.config)
        self.write(ad + self.name, self.exe())
        rec = lambda w: [(f['name'], f['stack']) for f in self.fns if f['where'] == w and f['stack'] is not None]
        self.write(ld + '%s-%s.ll' % (und, self.stamp), self.ir('app'))
        self.write(ld + '%s-%s.o' % (und, self.stamp), stack_object(rec('app'), self.cls, self.thumb))
        mem = self.members or [('lib.rmeta', b'abcdef'), ('compiler_builtins-4f5e.compiler_builtins.1a2b-cgu.0.rcgu.o', stack_object(rec('builtins'), self.cls, self.thumb))]
        r = self.write(td + 'deps/libcompiler_builtins-4f5e.rlib', ar(mem))
        l = self.write(td + 'deps/compiler_builtins-4f5e.ll', self.ir('builtins'))
        err = '   Compiling proj v0.1.0\n' + self.cargo_stderr
        if self.markers: err += '@CARGO_CALL_STACK:compiler_builtins_ll_path@%s\n@CARGO_CALL_STACK:compiler_builtins_rlib_path@%s\n' % (l, r)
        cfg = 'debug_assertions\npanic="unwind"\ntarget_arch="x"\ntarget_endian="little"\ntarget_env=""\ntarget_os="%s"\ntarget_pointer_width="%d"\ntarget_vendor="unknown"\n' % (self.os, self.cls)
        vv = 'rustc 1.76.0-nightly (2b603f95a 2023-11-12)\nbinary: rustc\ncommit-hash: %s\ncommit-date: 2023-11-12\nhost: x86_64-unknown-linux-gnu\nrelease: 1.76.0-nightly\nLLVM version: 17.0.5\n' % self.hash
        self.write('../err.txt', err)
        self.write('../cfg.txt', cfg)
        self.write('../vv.txt', vv)
        d = self.dir
        self.write('../bin/cargo', '#!/bin/sh\n{ for a in "$@"; do printf "%%s\\n" "$a"; done; } >> %s/cargo.log\nenv > %s/cargo.env\ncat %s/err.txt >&2\nexit %d\n' % (d, d, d, self.cargo_status))
        self.write('../bin/rustc', '#!/bin/sh\n{ for a in "$@"; do printf "%%s\\n" "$a"; done; } >> %s/rustc.log\ncase "$1" in -vV) cat %s/vv.txt;; *) cat %s/cfg.txt;; esac\n' % (d, d, d))
        for x in ('cargo', 'rustc'): os.chmod(os.path.join(d, 'bin', x), 0o755)
        for a in self.after: a(self)

    def run(self, *more, start=None, fmt=None, cwd=None, select=True):
        """-> the finished process, with .graph"""
        if not os.path.exists(os.path.join(self.dir, 'bin')): self.build()
        a = [TOOL]
        if self.flag: a += ['--target', self.target]
        if select: a += ['--' + self.kind, self.name]
        if fmt: a += ['--format', fmt]
        a += list(self.args) + list(more)
        if start is not None: a.append(start)
        env = dict(HOME='/nonexistent', PATH=os.path.join(self.dir, 'bin') + ':/usr/bin:/bin', RUST_BACKTRACE='0', **self.env)
        r = subprocess.run(a, cwd=os.path.join(self.proj, cwd or '.'), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        r.out, r.err = r.stdout.decode(), r.stderr.decode(errors='replace')
        r.graph = Graph(r.out)
        return r

    def log(self, which):
        p = os.path.join(self.dir, which)
        return open(p).read().split('\n')[:-1] if os.path.exists(p) else None


failures = []
labs = []


def lab(*a, **k):
    x = Lab(*a, **k)
    labs.append(x)
    return x


def expect(ok, what):
    if not ok: failures.append(what)


def done():
    for x in labs: shutil.rmtree(x.dir, ignore_errors=True)
    for f in failures: print('FAILED: ' + f)
    sys.exit(1 if failures else 0)
