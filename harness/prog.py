"""Standard scenarios: a firmware project as Cargo would have built it."""
import z3
from scen import *
import elf

BASE = 0x08000400


class Fn:
    """a linked function"""
    def __init__(self, name, code=None, stack=None, ir=None, sig=('void', []), aliases=(), size=None, declared=False, where='app', addr=None, bind=1, typ=2):
        self.name = name          # str or content list
        self.code = code if code is not None else [0x70, 0x47]     # bx lr
        self.stack = stack        # None | int | z3 BV(7n): recorded by the compiler
        self.ir = ir              # None: no body in the IR; list of statement lines (content)
        self.sig = sig            # (ret, [params])
        self.aliases = list(aliases)   # [(name, info)] further symbols at the same address
        self.size = size
        self.declared = declared
        self.where = where        # app | builtins : which object / IR file it is recorded in
        self.addr = addr
        self.typ = typ


def thumb_target(t):
    return t.startswith('thumb')


class Program:
    def __init__(self, target='thumbv7m-none-eabi', kind='example', name='app', start=None, fmt=None):
        self.target, self.kind, self.name, self.start, self.fmt = target, kind, name, start, fmt
        self.fns = []
        self.undef = []
        self.extra_ir = []        # further top-level IR lines
        self.extra_builtins_ir = []
        self.dead = []            # Fn defined in IR and object but not in the executable
        self.extra_syms = []      # (name,value,size,info,shndx) in the executable
        self.cls = 32 if target.startswith(('thumb', 'arm', 'riscv32')) else 64
        self.base = BASE
        self.gap = 0
        self.text_size = 0        # larger than what the code needs: the rest is zeros
        self.data_marks = []      # (address, 'd'|'t'|..) further mapping symbols
        self.tags = True
        self.mixed_obj = False
        self.builtin_members = None
        self.ll_stamp = 'a1b2c3d4e5f60718'
        self.obj_kw = {}
        self.more_args = []
        self.compiler_stderr = ''

    def fn(self, *a, **k):
        f = Fn(*a, **k)
        self.fns.append(f)
        return f

    # ---- pieces
    def layout(self):
        a = self.base
        for f in self.fns:
            if f.addr is None:
                f.addr = a
            n = f.size if f.size is not None else len(f.code)
            a = f.addr + max(n, len(f.code))
            a = (a + 3) // 4 * 4 + self.gap

    def exe(self):
        self.layout()
        e = elf.Elf(self.cls, 2, {32: 40, 64: 62}[self.cls])
        lo = self.base
        intext = [f for f in self.fns if not getattr(f, 'sect', None)]
        hi = max([f.addr + len(f.code) for f in intext if f.code] + [lo])
        text = [0] * (hi - lo)
        for f in intext:
            if not f.code: continue
            text[f.addr - lo:f.addr - lo + len(f.code)] = f.code
        e.sec('.text', text, type=1, flags=6, addr=lo, big=self.text_size)
        # other sections: (name, address, size, type, flags), with the functions that are said to be in them
        index = {}
        for name, addr, size, typ, flags in getattr(self, 'sections', []):
            d = [0] * size
            for f in self.fns:
                if getattr(f, 'sect', None) == name and f.code: d[f.addr - addr:f.addr - addr + len(f.code)] = f.code
            assert len(d) == size
            index[name] = e.sec(name, d, type=typ, flags=flags, addr=addr)
        shndx = lambda f: index.get(getattr(f, 'sect', None), 1)
        th = thumb_target(self.target)
        e.sym('app.c', 0, 0, 0x04, 0xfff1)
        k = 0
        for f in self.fns:
            if th and self.tags and not getattr(f, 'tagless', False):
                if (0, 'd') not in getattr(f, 'marks', []):
                    e.sym('$t.%d' % k, f.addr, 0, 0x00, shndx(f))
                    k += 1
                for off, kind in getattr(f, 'marks', []):
                    e.sym('$%s.%d' % (kind, k), f.addr + off, 0, 0x00, shndx(f))
                    k += 1
        for s in self.extra_syms:
            e.sym(*s)
        for f in self.fns:
            if getattr(f, 'hidden', False): continue
            n = f.size if f.size is not None else len(f.code)
            v = getattr(f, 'value', f.addr | (1 if th else 0))
            e.sym(f.name, v, n, 0x10 | f.typ, shndx(f))
            for al in f.aliases:
                nm, info = al if isinstance(al, tuple) else (al, 0x12)
                e.sym(nm, v, n, info, shndx(f))
        for n in self.undef:
            e.sym(n, 0, 0, 0x12, 0)
        for i, (a, kind) in enumerate(self.data_marks):
            e.sym('$%s.%d' % (kind, 900 + i), a, 0, 0x00, 1)
        out = e.build()
        self.exe_total = e.total
        return out

    def sizes(self, where):
        r = []
        for f in self.fns + self.dead:
            if f.where == where and f.stack is not None:
                if isinstance(f.stack, int): b = elf.uleb(f.stack)
                elif isinstance(f.stack, list): b = f.stack
                else: b = elf.uleb_sym(f.stack, f.stack.size() // 7)
                names = getattr(f, 'rec_name', f.name)
                r.append((names, b))
        return r

    def ir_text(self, where):
        out = []
        out += items("; ModuleID = '%s'\nsource_filename = \"%s\"\ntarget datalayout = \"e-m:e-p:32:32\"\ntarget triple = \"%s\"\n\n" % (self.name, self.name, self.target))
        for l in (self.extra_ir if where == 'app' else self.extra_builtins_ir):
            out += items(l) + [10]
        for f in self.fns + self.dead:
            if f.where != where: continue
            if f.ir is not None:
                out += cat('define ', f.sig[0], ' @', getattr(f, 'ir_name', f.name), '(', self.params(f.sig[1]), ') unnamed_addr #0 {\nstart:\n')
                for st in f.ir:
                    out += cat('  ', st, '\n')
                out += items('  ret void\n}\n\n')
            elif f.declared:
                out += cat('declare ', f.sig[0], ' @', getattr(f, 'ir_name', f.name), '(', ', '.join(f.sig[1]), ') unnamed_addr #0\n\n')
        out += items('attributes #0 = { nounwind }\n\n!llvm.module.flags = !{!0}\n\n!0 = !{i32 7, !"PIC Level", i32 2}\n')
        return out

    @staticmethod
    def params(ps):
        out = []
        for i, p in enumerate(ps):
            if i: out += items(', ')
            out += cat(p, ' %%%d' % i)
        return out

    # ---- the whole scenario
    def scenario(self, root, name):
        s = Scenario(root, name)
        self.fill(s)
        return s

    def fill(self, s):
        root = s.root
        tdir = 'proj/target/%s/release/' % self.target
        adir = tdir + ('examples/' if self.kind == 'example' else '')
        ldir = tdir + ('examples/' if self.kind == 'example' else 'deps/')
        und = self.name.replace('-', '_')
        s.add('proj/Cargo.toml', '[package]\nname = "proj"\nversion = "0.1.0"\nedition = "2021"\n')
        s.add('proj/src/main.rs', 'fn main() {}\n')
        s.add(adir + self.name, self.exe())
        if self.exe_total: s.sparse[adir + self.name] = self.exe_total
        s.add(ldir + '%s-%s.ll' % (und, self.ll_stamp), self.ir_text('app'))
        mach = {32: 40, 64: 62}[self.cls]
        s.add(ldir + '%s-%s.o' % (und, self.ll_stamp), elf.stack_object(self.sizes('app'), self.cls, mach, thumb=thumb_target(self.target), **self.obj_kw))
        bo = elf.stack_object(self.sizes('builtins'), self.cls, mach, thumb=thumb_target(self.target), **self.obj_kw)
        mem = self.builtin_members(bo) if self.builtin_members else [('lib.rmeta', [0] * 6), ('compiler_builtins-4f5e6d7c8b9a0123.compiler_builtins.1a2b3c4d-cgu.0.rcgu.o', bo)]
        s.add(tdir + 'deps/libcompiler_builtins-4f5e6d7c8b9a0123.rlib', elf.ar(mem))
        s.add(tdir + 'deps/compiler_builtins-4f5e6d7c8b9a0123.ll', self.ir_text('builtins'))
        marks = '@CARGO_CALL_STACK:compiler_builtins_ll_path@%s\n@CARGO_CALL_STACK:compiler_builtins_rlib_path@%s\n' % (
            s.path(tdir + 'deps/compiler_builtins-4f5e6d7c8b9a0123.ll'), s.path(tdir + 'deps/libcompiler_builtins-4f5e6d7c8b9a0123.rlib'))
        s.args += [items('--target'), items(self.target), items('--' + self.kind), items(self.name)]
        if self.fmt: s.args += [items('--format'), items(self.fmt)]
        if self.start is not None: s.args += [items(self.start)]
        s.args += [items(a) for a in self.more_args]
        s.procs.append(Proc('vv', 'rustc', ['-vV'], RUSTC_VV % HASH))
        s.procs.append(Proc('cfg', 'rustc', [], CFG_THUMB if thumb_target(self.target) or 'none' in self.target else CFG_LINUX))
        s.procs.append(Proc('cargo', 'cargo', ['rustc'], '', '   Compiling proj v0.1.0\n' + self.compiler_stderr + marks + '    Finished release [optimized] target(s) in 0.10s\n'))
        s.envs.append(items('HOME=/nonexistent'))
