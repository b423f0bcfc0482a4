//! The environment of the program under test: C library calls, files (with symbolic byte
//! overlays), child processes (modelled), pipes, clock, randomness.
use crate::exec::*;
use crate::expr::*;
use crate::ir::V;
use std::collections::HashMap;
use std::ffi::CString;
use std::rc::Rc;

extern "C" {
    fn open(p: *const i8, f: i32, ...) -> i32;
    fn close(f: i32) -> i32;
    fn pread(f: i32, b: *mut u8, n: usize, o: i64) -> isize;
    fn fstat(f: i32, b: *mut u8) -> i32;
    fn stat(p: *const i8, b: *mut u8) -> i32;
    fn lstat(p: *const i8, b: *mut u8) -> i32;
    fn fstatat(d: i32, p: *const i8, b: *mut u8, f: i32) -> i32;
    fn readlink(p: *const i8, b: *mut u8, n: usize) -> isize;
    fn realpath(p: *const i8, b: *mut u8) -> *mut i8;
    fn free(p: *mut i8);
    fn getcwd(b: *mut u8, n: usize) -> *mut u8;
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
    fn write(f: i32, b: *const u8, n: usize) -> isize;
    fn sysconf(n: i32) -> i64;
    fn access(p: *const i8, m: i32) -> i32;
}

#[derive(Clone, Default)]
pub struct ProcModel {
    pub id: String,
    pub argv0: String,
    pub contains: Vec<String>,
    pub stdout: String,
    pub stderr: String,
    pub status: E,
    pub errno: i32,
}

#[derive(Clone)]
pub enum Fd { File { path: String, off: u64 }, Pipe { data: Vec<(u8, E)>, off: usize }, PipeW(i32), Dir }

#[derive(Default)]
pub struct Libc {
    pub out_fd: i32,
    pub overlays: HashMap<String, HashMap<u64, E>>,
    pub procs: Vec<ProcModel>,
    pub mtimes: HashMap<String, E>,
    pub mtime_ns: HashMap<String, E>,
    /// symbolic file lengths (64 bits); all ones: there is no such file
    pub flens: HashMap<String, E>,
    /// faults of the environment: `out.limit` etc., `in.err:<path>`
    pub faults: HashMap<String, E>,
    pub nwrites: u64,
    pub once_done: bool,
    pub dir_path: HashMap<u64, String>,
    pub nreads: u64,
    pub env: Vec<(String, u64)>,
    pub base_env: Vec<Vec<u8>>,
    pub exe: String,
    pub seed: u64,
    pub reverse_dir: bool,
    pub fds: HashMap<i32, Fd>,
    pub next_pipe: i32,
    pub errno_at: u64,
    pub stdout: Vec<(u8, E)>,
    pub stderr: Vec<(u8, E)>,
    pub events: Vec<String>,
    pub keep: Vec<E>,
    pub actions: HashMap<u64, Vec<(i32, i32)>>,
    pub children: HashMap<i32, E>,
    pub next_pid: i32,
    pub dirs: HashMap<u64, (Vec<(String, u8, u64)>, usize, i32)>,
    pub dent: u64,
    pub ev_exprs: Vec<E>,
    pub next_key: u64,
}

impl Libc {
    pub fn emit(&mut self, b: &[u8]) {
        let mut o = 0;
        while o < b.len() {
            let n = unsafe { write(self.out_fd, b[o..].as_ptr(), b.len() - o) };
            if n <= 0 { std::process::exit(3); }
            o += n as usize;
        }
    }
}

pub fn js(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for &c in b {
        match c {
            b'"' => s.push_str("\\\""), b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\u{:04x}", c)),
        }
    }
    s.push('"');
    s
}

impl Ex {
    fn errno(&mut self, e: i32) -> V { let a = self.libc.errno_at; self.store_n(a, 4, &V::C(e as u64)); V::C(u64::MAX) }
    fn copy_errno(&mut self) -> V { let e = unsafe { *__errno_location() }; self.errno(e) }
    fn rc(&mut self, r: i64) -> V { if r < 0 { self.copy_errno() } else { V::C(r as u64) } }
    fn path(&mut self, a: u64) -> Vec<u8> {
        let mut v = vec![];
        let mut p = a;
        loop {
            let c = self.load_n(p, 1);
            let b = self.concretize(&c, 8) as u8;
            if b == 0 { return v; }
            v.push(b);
            p += 1;
        }
    }
    fn cpath(&mut self, a: u64) -> CString { let p = self.path(a); CString::new(p).unwrap() }
    fn ev(&mut self, s: String) { self.libc.events.push(s); }
    fn sbytes(&self, a: u64, n: u64) -> Vec<(u8, E)> { (0..n).map(|i| (self.mem.rd(a + i, 1) as u8, self.mem.sym(a + i))).collect() }
    fn sym_cstr(&mut self, a: u64) -> Vec<(u8, E)> {
        let mut v = vec![];
        let mut p = a;
        loop {
            let c = self.load_n(p, 1);
            if let V::C(0) = c { return v; }
            v.push((self.mem.rd(p, 1) as u8, self.mem.sym(p)));
            p += 1;
        }
    }
    fn file_bytes(&mut self, path: &str) -> Vec<(u8, E)> {
        if path.is_empty() { return vec![]; }
        let b = match std::fs::read(path) { Ok(b) => b, Err(_) => { let s = format!("cannot read modelled file {}", path); self.fail(&s) } };
        let ov = self.libc.overlays.get(path).cloned().unwrap_or_default();
        b.iter().enumerate().map(|(i, &x)| (x, ov.get(&(i as u64)).copied().unwrap_or(0))).collect()
    }
    fn put_bytes(&mut self, a: u64, b: &[(u8, E)]) {
        for (i, &(x, e)) in b.iter().enumerate() {
            self.mem.wr(a + i as u64, 1, x as u64);
            let e2 = if e != 0 && self.d.cst(e).is_some() { self.mem.wr(a + i as u64, 1, self.d.cst(e).unwrap() as u64); 0 } else { e };
            if e2 != 0 || self.mem.maybe_sym(a + i as u64, 1) { self.mem.set_sh(a + i as u64, e2); }
        }
    }
    fn fault(&mut self, k: &str) -> Option<u64> {
        let e = *self.libc.faults.get(k)?;
        Some(self.concretize(&V::S(e), 64))
    }
    /// error a call on a path is to give
    fn path_fault(&mut self, kind: &str, path: &str) -> Option<i32> {
        if self.libc.faults.is_empty() { return None; }
        let p = std::fs::canonicalize(path).map(|x| x.to_string_lossy().into_owned()).unwrap_or_else(|_| path.to_string());
        match self.fault(&format!("{}:{}", kind, p)) { Some(e) if e != 0 => Some(e as i32), _ => None }
    }
    /// error of examining an entry of an open directory
    fn entry_fault(&mut self, d: i32, p: &CString) -> Option<i32> {
        if self.libc.faults.is_empty() || p.as_bytes().is_empty() { return None; }
        if d == -100 { return self.path_fault("stat.err", p.to_str().unwrap_or("")); }
        let h = self.libc.dirs.iter().find(|(_, x)| x.2 == d).map(|(h, _)| *h)?;
        let dir = self.libc.dir_path.get(&h).cloned()?;
        self.path_fault("stat.err", &format!("{}/{}", dir, p.to_str().unwrap_or("")))
    }
    /// how many of n bytes a write to stdout accepts, or the error it gives
    fn accept(&mut self, f: i32, n: u64) -> Result<u64, i32> {
        if f != 1 || self.libc.faults.is_empty() || n == 0 { return Ok(n); }
        self.libc.nwrites += 1;
        if self.fault("out.intr") == Some(self.libc.nwrites) { return Err(4); }
        // the first write after so many bytes fails, later ones do not
        if !self.libc.once_done {
            if let Some(&at) = self.libc.faults.get("out.once") {
                let l = self.d.constant(self.libc.stdout.len() as u128, 64);
                let c = self.d.bin(Op::Ule, at, l);
                if self.branch(c) { self.libc.once_done = true; return Err(11); }
            }
        }
        let mut k = n;
        if let Some(l) = self.fault("out.limit") {
            let left = l.saturating_sub(self.libc.stdout.len() as u64);
            if left == 0 { let e = self.fault("out.errno").unwrap_or(28); return Err(e as i32); }
            k = k.min(left);
        }
        match self.fault("out.chunk") { Some(c) if c > 0 => k = k.min(c), _ => {} }
        Ok(k)
    }
    /// how many of n bytes a read at `off` may give, or the error
    fn supply(&mut self, path: Option<&str>, off: u64, n: u64) -> Result<u64, i32> {
        if self.libc.faults.is_empty() || n <= 16 { return Ok(n); }
        // reads of regular files are not interrupted
        if path.is_none() {
            self.libc.nreads += 1;
            if self.fault("in.intr") == Some(self.libc.nreads) { return Err(4); }
        }
        let mut k = n;
        match self.fault("in.chunk") { Some(c) if c > 0 => k = k.min(c), _ => {} }
        if path.is_none() { match self.fault("pipe.cut") { Some(at) if off < at => k = k.min(at - off), _ => {} } }
        if let Some(p) = path {
            if let Some(at) = self.fault(&format!("in.err:{}", p)) {
                if off >= at { return Err(5); }
                k = k.min(at - off);
            }
        }
        Ok(k)
    }
    /// length a file is cut to, if that is symbolic
    fn flen(&mut self, path: &str) -> Option<u64> {
        if self.libc.flens.is_empty() { return None; }
        let p = std::fs::canonicalize(path).map(|x| x.to_string_lossy().into_owned()).unwrap_or_else(|_| path.to_string());
        let e = *self.libc.flens.get(&p)?;
        Some(self.concretize(&V::S(e), 64))
    }
    fn mtime_overlay(&mut self, path: &[u8], at: u64) {
        let p = String::from_utf8_lossy(path).into_owned();
        let base = p.rsplit('/').next().unwrap_or("").to_string();
        let hit = self.libc.mtimes.get(&base).copied();
        if let Some(e) = hit { 
            self.store_n(at, 8, &V::S(e));
            match self.libc.mtime_ns.get(&base).copied() { Some(e) => self.store_n(at + 8, 4, &V::S(e)), None => self.store_n(at + 8, 4, &V::C(0)) }
        }
    }
    fn stat_done(&mut self, r: i32, path: &[u8], buf: u64) -> V {
        if r < 0 { return self.copy_errno(); }
        self.mem.clear(buf, 144);
        // struct stat: st_mtim at offset 88
        self.mtime_overlay(path, buf + 88);
        if let Some(n) = self.flen(&String::from_utf8_lossy(path)) {
            if n == u64::MAX { return self.errno(2); }
            self.store_n(buf + 48, 8, &V::C(n));
        }
        V::C(0)
    }

    pub fn libc_call(&mut self, n: &str, args: &[V]) -> V {
        macro_rules! a { ($i:expr) => {{ let v = args[$i].clone(); self.addr(&v) }} }
        macro_rules! i { ($i:expr) => {{ let v = args[$i].clone(); self.concretize(&v, 32) as u32 as i32 }} }
        match n {
            "malloc" => { let n = a!(0); V::C(self.mem.alloc(n.max(1), 16)) }
            "calloc" => {
                let n = a!(0).wrapping_mul(a!(1)).max(1);
                let p = self.mem.alloc(n, 16);
                unsafe { std::ptr::write_bytes(p as *mut u8, 0, n as usize); }
                self.mem.clear(p, n);
                V::C(p)
            }
            "posix_memalign" => { let (o, al, n) = (a!(0), a!(1), a!(2)); let p = self.mem.alloc(n.max(1), al); self.store_n(o, 8, &V::C(p)); V::C(0) }
            "realloc" => {
                let (p, n) = (a!(0), a!(1));
                if p == 0 { return V::C(self.mem.alloc(n.max(1), 16)); }
                let old = self.mem.size_of(p);
                let q = self.mem.alloc(n.max(1), 16);
                self.mem.copy(q, p, old.min(n));
                self.mem.dealloc(p);
                V::C(q)
            }
            "free" => { let p = a!(0); if p != 0 { if self.mem.has(p, 1) { self.mem.dealloc(p) } else { unsafe { free(p as *mut i8) } } } V::C(0) }
            "memcmp" | "bcmp" => {
                let n_ = a!(2);
                let (p, q) = (a!(0), a!(1));
                if !(self.mem.has(p, n_) && self.mem.maybe_sym(p, n_)) && !(self.mem.has(q, n_) && self.mem.maybe_sym(q, n_)) {
                    if n_ == 0 { return V::C(0); }
                    let (x, y) = (self.mem.bytes(p, n_), self.mem.bytes(q, n_));
                    return V::C(match x.cmp(y) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 });
                }
                if n == "bcmp" {
                    let mut eq = self.d.constant(1, 1);
                    for k in 0..n_ {
                        let (x, y) = (self.byte_e(p + k), self.byte_e(q + k));
                        let e = self.d.bin(Op::Eq, x, y);
                        eq = self.d.bin(Op::And, eq, e);
                    }
                    let ne = self.d.not1(eq);
                    let r = self.d.zext(ne, 32);
                    return self.from_e(r);
                }
                let mut acc = self.d.constant(0, 32);
                let (neg, pos) = (self.d.constant(0xffff_ffff, 32), self.d.constant(1, 32));
                for k in (0..n_).rev() {
                    let (x, y) = (self.byte_e(p + k), self.byte_e(q + k));
                    let eq = self.d.bin(Op::Eq, x, y);
                    let lt = self.d.bin(Op::Ult, x, y);
                    let t = self.d.ite(lt, neg, pos);
                    acc = self.d.ite(eq, acc, t);
                }
                self.from_e(acc)
            }
            "strlen" => {
                let p = a!(0);
                let mut k = 0;
                loop {
                    let v = self.load_n(p + k, 1);
                    let z = match v { V::C(c) => c == 0, V::S(e) => { let zz = self.d.constant(0, 8); let q = self.d.bin(Op::Eq, e, zz); self.branch(q) } _ => false };
                    if z { return V::C(k); }
                    k += 1;
                }
            }
            "__errno_location" => V::C(self.libc.errno_at),
            "__xpg_strerror_r" => { let (e, b) = (i!(0), a!(1)); let s = format!("os error {}", e); let bytes: Vec<(u8, E)> = s.bytes().chain([0]).map(|x| (x, 0)).collect(); self.put_bytes(b, &bytes); V::C(0) }
            "getenv" => {
                let k = String::from_utf8_lossy(&{ let q = a!(0); self.path(q) }).into_owned();
                V::C(self.libc.env.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0))
            }
            "exit" | "_exit" => { let c = i!(0); self.finish("exit", c, "") }
            "abort" => self.finish("abort", 134, "abort"),
            "pause" => self.fail("pause"),
            // ---------------------------------------------------------- files
            "open64" | "open" => {
                let p = { let q = a!(0); self.cpath(q) };
                let fl = i!(1);
                // opened for writing: unharmed unless it is created, cut off or appended to
                if fl & 0o3100 != 0 {
                    let s = format!("[\"open-write\",{}]", js(p.as_bytes()));
                    self.ev(s);
                }
                if fl & 0o103 != 0 {
                    let r = unsafe { access(p.as_ptr(), 2) };
                    if r != 0 { return self.copy_errno(); }
                }
                if self.flen(p.to_str().unwrap_or("")) == Some(u64::MAX) { return self.errno(2); }
                if let Some(e) = self.path_fault("open.err", p.to_str().unwrap_or("")) { return self.errno(e); }
                let f = unsafe { open(p.as_ptr(), 0x80000, 0) };
                if f < 0 { return self.copy_errno(); }
                let path = std::fs::canonicalize(p.to_str().unwrap_or("")).map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
                self.libc.fds.insert(f, Fd::File { path, off: 0 });
                V::C(f as u64)
            }
            "close" => {
                let f = i!(0);
                match self.libc.fds.remove(&f) { Some(Fd::File { .. }) | Some(Fd::Dir) => unsafe { close(f); }, _ => {} }
                V::C(0)
            }
            "read" => {
                let (f, b, n) = (i!(0), a!(1), a!(2));
                match self.libc.fds.get(&f).cloned() {
                    Some(Fd::File { path, off }) => {
                        let n = match self.flen(&path) { Some(l) => n.min(l.saturating_sub(off)), None => n };
                        let n = match self.supply(Some(&path), off, n) { Ok(n) => n, Err(e) => return self.errno(e) };
                        let r = unsafe { pread(f, b as *mut u8, n as usize, off as i64) };
                        if r < 0 { return self.copy_errno(); }
                        self.mem.clear(b, r as u64);
                        if let Some(ov) = self.libc.overlays.get(&path) {
                            let hits: Vec<(u64, E)> = ov.iter().filter(|(o, _)| **o >= off && **o < off + r as u64).map(|(o, e)| (*o, *e)).collect();
                            for (o, e) in hits { self.put_bytes(b + o - off, &[(0, e)]); }
                        }
                        self.libc.fds.insert(f, Fd::File { path, off: off + r as u64 });
                        V::C(r as u64)
                    }
                    Some(Fd::Pipe { data, off }) => {
                        let n = match self.supply(None, off as u64, n) { Ok(n) => n, Err(e) => return self.errno(e) };
                        let k = (data.len() - off).min(n as usize);
                        self.put_bytes(b, &data[off..off + k]);
                        self.libc.fds.insert(f, Fd::Pipe { data, off: off + k });
                        V::C(k as u64)
                    }
                    _ if f == 0 => V::C(0),
                    _ => self.errno(9),
                }
            }
            "lseek64" => {
                let (f, o, w) = (i!(0), a!(1) as i64, i!(2));
                match self.libc.fds.get(&f).cloned() {
                    Some(Fd::File { path, off }) => {
                        let len = match self.flen(&path) { Some(l) => l as i64, None => std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0) as i64 };
                        let x = match w { 0 => o, 1 => off as i64 + o, _ => len + o };
                        if x < 0 { return self.errno(22); }
                        self.libc.fds.insert(f, Fd::File { path, off: x as u64 });
                        V::C(x as u64)
                    }
                    _ => self.errno(29),
                }
            }
            "write" => {
                let (f, b, n) = (i!(0), a!(1), a!(2));
                let n = match self.accept(f, n) { Ok(n) => n, Err(e) => return self.errno(e) };
                let s = self.sbytes(b, n);
                match f {
                    1 => self.libc.stdout.extend(s),
                    2 => self.libc.stderr.extend(s),
                    _ => if let Some(Fd::File { path, .. }) = self.libc.fds.get(&f) {
                        let s = format!("[\"open-write\",{}]", js(path.as_bytes()));
                        self.ev(s);
                    }
                }
                V::C(n)
            }
            "writev" => {
                let (f, v, c) = (i!(0), a!(1), a!(2) & 0xffff_ffff);
                let mut t = 0;
                for k in 0..c {
                    let p = self.load_n(v + 16 * k, 8);
                    let p = self.addr(&p);
                    let n = self.load_n(v + 16 * k + 8, 8);
                    let want = self.addr(&n);
                    let n = match self.accept(f, want) { Ok(n) => n, Err(e) if t == 0 => return self.errno(e), Err(_) => 0 };
                    let s = self.sbytes(p, n);
                    match f { 1 => self.libc.stdout.extend(s), 2 => self.libc.stderr.extend(s), _ => {} }
                    t += n;
                    if n < want { break; }
                }
                V::C(t)
            }
            "fstat64" => {
                let (f, b) = (i!(0), a!(1));
                let r = unsafe { fstat(f, b as *mut u8) };
                let p = match self.libc.fds.get(&f) { Some(Fd::File { path, .. }) => path.clone().into_bytes(), _ => vec![] };
                self.stat_done(r, &p, b)
            }
            "stat64" | "lstat64" => {
                let p = { let q = a!(0); self.cpath(q) };
                let b = a!(1);
                if let Some(e) = self.entry_fault(-100, &p) { return self.errno(e); }
                let r = unsafe { if n == "stat64" { stat(p.as_ptr(), b as *mut u8) } else { lstat(p.as_ptr(), b as *mut u8) } };
                self.stat_done(r, p.as_bytes(), b)
            }
            "fstatat64" => {
                let d = i!(0);
                let p = { let q = a!(1); self.cpath(q) };
                let b = a!(2);
                let fl = i!(3);
                if let Some(e) = self.entry_fault(d, &p) { return self.errno(e); }
                let r = unsafe { fstatat(d, p.as_ptr(), b as *mut u8, fl) };
                self.stat_done(r, p.as_bytes(), b)
            }
            "statx" => self.fail("statx"),
            "readlink" => {
                let p = { let q = a!(0); self.cpath(q) };
                let (b, n) = (a!(1), a!(2));
                if p.as_bytes() == b"/proc/self/exe" {
                    let e: Vec<(u8, E)> = self.libc.exe.bytes().map(|x| (x, 0)).collect();
                    self.put_bytes(b, &e);
                    return V::C(e.len() as u64);
                }
                let r = unsafe { readlink(p.as_ptr(), b as *mut u8, n as usize) };
                if r >= 0 { self.mem.clear(b, r as u64); }
                self.rc(r as i64)
            }
            "realpath" => {
                let p = { let q = a!(0); self.cpath(q) };
                let r = unsafe { realpath(p.as_ptr(), std::ptr::null_mut()) };
                if r.is_null() { self.copy_errno(); return V::C(0); }
                let s = unsafe { std::ffi::CStr::from_ptr(r) }.to_bytes().to_vec();
                unsafe { free(r) };
                V::C(self.mem.put(&s))
            }
            "getcwd" => {
                let (b, n) = (a!(0), a!(1));
                let r = unsafe { getcwd(b as *mut u8, n as usize) };
                if r.is_null() { self.copy_errno(); return V::C(0); }
                self.mem.clear(b, n.min(4096));
                V::C(b)
            }
            "opendir" => {
                let p = { let q = a!(0); self.path(q) };
                let ps = String::from_utf8_lossy(&p).into_owned();
                let c = CString::new(p).unwrap();
                let f = unsafe { open(c.as_ptr(), 0x90000, 0) };
                if f < 0 { self.copy_errno(); return V::C(0); }
                use std::os::unix::fs::DirEntryExt;
                let mut l: Vec<(String, u8, u64)> = match std::fs::read_dir(&ps) {
                    Ok(d) => d.filter_map(|e| e.ok()).map(|e| {
                        let t = e.file_type().map(|t| if t.is_dir() { 4 } else if t.is_symlink() { 10 } else { 8 }).unwrap_or(0);
                        (e.file_name().to_string_lossy().into_owned(), t, e.ino())
                    }).collect(),
                    Err(_) => return V::C(0),
                };
                // files whose existence is symbolic
                if !self.libc.flens.is_empty() { l.retain(|(n, _, _)| self.flen(&format!("{}/{}", ps, n)) != Some(u64::MAX)); }
                l.sort();
                if self.libc.reverse_dir { l.reverse(); }
                l.insert(0, (".".into(), 4, 1));
                l.insert(1, ("..".into(), 4, 1));
                let h = self.mem.alloc(16, 16);
                let ps = std::fs::canonicalize(&ps).map(|x| x.to_string_lossy().into_owned()).unwrap_or(ps);
                self.libc.dir_path.insert(h, ps);
                self.libc.fds.insert(f, Fd::Dir);
                self.libc.dirs.insert(h, (l, 0, f));
                V::C(h)
            }
            "readdir64" => {
                let h = a!(0);
                if !self.libc.faults.is_empty() {
                    if let Some(p) = self.libc.dir_path.get(&h).cloned() {
                        // entries it gives before it fails
                        if let Some(at) = self.fault(&format!("dir.err:{}", p)) {
                            if self.libc.dirs.get(&h).map(|x| x.1 as u64 == at.saturating_add(2)).unwrap_or(false) { self.errno(5); return V::C(0); }
                        }
                    }
                }
                let (name, t, ino) = match self.libc.dirs.get_mut(&h) {
                    Some((l, k, _)) => { if *k >= l.len() { return V::C(0); } let x = l[*k].clone(); *k += 1; x }
                    None => return V::C(0),
                };
                let d = self.libc.dent;
                let len = (19 + name.len() as u64 + 1 + 7) / 8 * 8;
                self.store_n(d, 8, &V::C(ino));
                self.store_n(d + 8, 8, &V::C(0));
                self.store_n(d + 16, 2, &V::C(len));
                self.store_n(d + 18, 1, &V::C(t as u64));
                let b: Vec<(u8, E)> = name.bytes().chain([0]).map(|x| (x, 0)).collect();
                self.put_bytes(d + 19, &b);
                V::C(d)
            }
            "closedir" => { let h = a!(0); if let Some((_, _, f)) = self.libc.dirs.remove(&h) { self.libc.fds.remove(&f); unsafe { close(f); } } V::C(0) }
            "dirfd" => { let h = a!(0); V::C(self.libc.dirs.get(&h).map(|x| x.2 as u64).unwrap_or(u64::MAX)) }
            "futimens" => {
                let (f, t) = (i!(0), a!(1));
                let p = match self.libc.fds.get(&f) { Some(Fd::File { path, .. }) => path.clone(), _ => String::new() };
                self.touch(CString::new(p).unwrap(), if t == 0 { 0 } else { t + 16 })
            }
            "utimes" | "lutimes" => { let p = { let q = a!(0); self.cpath(q) }; let t = a!(1); self.touch(p, if t == 0 { 0 } else { t + 16 }) }
            "utimensat" => { let p = if a!(1) == 0 { CString::new("").unwrap() } else { { let q = a!(1); self.cpath(q) } }; let t = a!(2); self.touch(p, if t == 0 { 0 } else { t + 16 }) }
            // ---------------------------------------------------------- processes
            "pipe2" => {
                let p = a!(0);
                let r = self.libc.next_pipe;
                self.libc.next_pipe += 2;
                self.libc.fds.insert(r, Fd::Pipe { data: vec![], off: 0 });
                self.libc.fds.insert(r + 1, Fd::PipeW(r));
                self.store_n(p, 4, &V::C(r as u64));
                self.store_n(p + 4, 4, &V::C(r as u64 + 1));
                V::C(0)
            }
            "posix_spawn_file_actions_init" => { let p = a!(0); self.libc.actions.insert(p, vec![]); V::C(0) }
            "posix_spawn_file_actions_adddup2" => { let (p, f, t) = (a!(0), i!(1), i!(2)); self.libc.actions.entry(p).or_default().push((f, t)); V::C(0) }
            "posix_spawn_file_actions_destroy" | "posix_spawnattr_init" | "posix_spawnattr_destroy" | "posix_spawnattr_setpgroup"
            | "posix_spawnattr_setflags" | "posix_spawnattr_setsigdefault" | "posix_spawnattr_setsigmask" => V::C(0),
            "posix_spawnp" | "posix_spawn" => self.spawn(args),
            "waitpid" => {
                let (p, s) = (i!(0), a!(1));
                match self.libc.children.get(&p).copied() {
                    Some(e) => { if s != 0 { let v = self.from_e(e); self.store_n(s, 4, &v); } V::C(p as u64) }
                    None => self.errno(10),
                }
            }
            "poll" => {
                let (p, c) = (a!(0), a!(1));
                let mut t = 0;
                for k in 0..c {
                    let f = self.load_n(p + 8 * k, 4);
                    let f = self.concretize(&f, 32) as i32;
                    let r = if matches!(self.libc.fds.get(&f), Some(Fd::Pipe { .. })) { t += 1; 1 } else { 0 };
                    self.store_n(p + 8 * k + 6, 2, &V::C(r));
                }
                V::C(t)
            }
            "ioctl" => { let r = a!(1); if r & 0xffff_ffff == 0x5421 { V::C(0) } else { self.errno(25) } }
            "fcntl" => V::C(0),
            "getpid" => V::C(4242),
            "gettid" => V::C(4242),
            // ---------------------------------------------------------- misc
            "clock_gettime" => { let t = a!(1); self.store_n(t, 8, &V::C(1_700_000_000)); self.store_n(t + 8, 8, &V::C(123_456_789)); V::C(0) }
            "sysconf" => { let k = i!(0); V::C(unsafe { sysconf(k) } as u64) }
            "getauxval" => V::C(0),
            "signal" => V::C(0),
            "sigaction" => {
                let o = a!(2);
                if o != 0 { for k in 0..19 { self.store_n(o + 8 * k, 8, &V::C(0)); } self.store_n(o, 8, &V::C(1)); }
                V::C(0)
            }
            "sigemptyset" | "sigaddset" | "sigaltstack" | "mprotect" | "munmap" | "pthread_attr_destroy" | "pthread_key_delete" | "pthread_setspecific" => V::C(0),
            "pthread_key_create" => { let p = a!(0); self.libc.next_key += 1; let k = self.libc.next_key; self.store_n(p, 4, &V::C(k)); V::C(0) }
            "pthread_self" => V::C(1),
            "pthread_getattr_np" => V::C(1),
            "mmap64" => { let n = a!(1); V::C(self.mem.alloc(n, 4096)) }
            "dl_iterate_phdr" => V::C(0),
            "_Unwind_Backtrace" => V::C(5),
            "gnu_get_libc_version" => V::C(self.mem.put(b"2.39")),
            "syscall" => {
                let nr = a!(0) as i64;
                match nr {
                    318 => {
                        let (b, n) = (a!(1), a!(2));
                        for k in 0..n {
                            self.libc.seed = self.libc.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            let x = self.libc.seed >> 33 & 255;
                            self.store_n(b + k, 1, &V::C(x));
                        }
                        V::C(n)
                    }
                    332 => {
                        let d = i!(1);
                        let pa = a!(2);
                        let (fl, m, b) = (i!(3), i!(4), a!(5));
                        if b == 0 { return self.errno(14); }
                        let p = self.cpath(pa);
                        if !p.as_bytes().is_empty() && self.flen(p.to_str().unwrap_or("")) == Some(u64::MAX) { return self.errno(2); }
                        if let Some(e) = self.entry_fault(d, &p) { return self.errno(e); }
                        let r = unsafe { syscall(332, d as i64, p.as_ptr(), fl as i64, m as i64, b as *mut u8) };
                        if r < 0 { return self.copy_errno(); }
                        self.mem.clear(b, 256);
                        let pb = if p.as_bytes().is_empty() { match self.libc.fds.get(&d) { Some(Fd::File { path, .. }) => path.clone().into_bytes(), _ => vec![] } } else { p.as_bytes().to_vec() };
                        // struct statx: stx_mtime at 0x70
                        self.mtime_overlay(&pb, b + 0x70);
                        V::C(0)
                    }
                    280 => { let p = { let q = a!(2); self.cpath(q) }; let t = a!(3); self.touch(p, if t == 0 { 0 } else { t + 16 }) }
                    202 => { let op = i!(2) & 127; if op == 1 || op == 10 { V::C(0) } else { self.fail("futex wait: deadlock") } }
                    186 => V::C(4242),
                    _ => self.errno(38),
                }
            }
            "recvmsg" | "sendmsg" | "socketpair" | "recv" | "fork" | "execvp" | "waitid" => { let s = format!("unmodelled call {}", n); self.fail(&s) }
            "dup" | "dup2" => { let f = i!(0); V::C(f as u64) }
            _ => { let s = format!("unknown external function {}", n); self.fail(&s) }
        }
    }

    fn touch(&mut self, p: CString, mt: u64) -> V {
        let ok = unsafe { access(p.as_ptr(), 0) } == 0 && self.flen(p.to_str().unwrap_or("")) != Some(u64::MAX);
        // modification time it is given (0: the current time)
        let t = if mt == 0 { 1_700_000_000_123_456_789 } else {
            let (v, w) = (self.load_n(mt, 8), self.load_n(mt + 8, 8));
            let (v, w) = (self.concretize(&v, 64), self.concretize(&w, 64));
            // UTIME_NOW
            if w == (1 << 30) - 1 { 1_700_000_000_123_456_789 } else { v.wrapping_mul(1_000_000_000).wrapping_add(w) }
        };
        let bad = self.path_fault("touch.err", p.to_str().unwrap_or(""));
        let (ok, e) = if ok && bad.is_some() { (false, bad.unwrap()) } else { (ok, 2) };
        let s = format!("[\"touch\",{},{},{}]", js(p.as_bytes()), ok, t);
        self.ev(s);
        if ok { V::C(0) } else { self.errno(e) }
    }

    pub fn sym_json(&mut self, b: &[(u8, E)]) -> String {
        // list of segments: strings (bytes) and numbers (expressions)
        let mut out = String::from("[");
        let mut cur: Vec<u8> = vec![];
        let mut first = true;
        for &(x, e) in b {
            let c = if e != 0 { self.d.cst(e) } else { Some(x as u128) };
            match c {
                Some(v) => cur.push(v as u8),
                None => {
                    if !cur.is_empty() { if !first { out.push(','); } out.push_str(&js(&cur)); first = false; cur.clear(); }
                    if !first { out.push(','); }
                    out.push_str(&e.to_string());
                    first = false;
                    self.libc.ev_exprs.push(e);
                }
            }
        }
        if !cur.is_empty() { if !first { out.push(','); } out.push_str(&js(&cur)); }
        out.push(']');
        out
    }

    fn spawn(&mut self, args: &[V]) -> V {
        let addr = |s: &mut Ex, i: usize| { let v = args[i].clone(); s.addr(&v) };
        let (pidp, acts, argv, envp) = (addr(self, 0), addr(self, 2), addr(self, 4), addr(self, 5));
        let file = addr(self, 1);
        let file = self.sym_cstr(file);
        let list = |s: &mut Ex, p: u64| -> Vec<Vec<(u8, E)>> {
            let mut v = vec![];
            let mut q = p;
            loop {
                let x = s.load_n(q, 8);
                let x = s.addr(&x);
                if x == 0 { return v; }
                v.push(s.sym_cstr(x));
                q += 8;
            }
        };
        let av = list(self, argv);
        let ev = if envp != 0 { list(self, envp) } else { vec![] };
        let base: Vec<Vec<u8>> = self.libc.base_env.clone();
        let plain = |b: &Vec<(u8, E)>| -> Vec<u8> { b.iter().map(|x| x.0).collect() };
        let extra: Vec<Vec<(u8, E)>> = ev.iter().filter(|x| x.iter().any(|y| y.1 != 0) || !base.contains(&plain(x))).cloned().collect();
        let missing: Vec<Vec<u8>> = base.iter().filter(|b| !ev.iter().any(|x| plain(x) == **b)).cloned().collect();
        let fj = self.sym_json(&file);
        let mut aj = vec![];
        for a in &av { aj.push(self.sym_json(a)); }
        let mut ej = vec![];
        for a in &extra { ej.push(self.sym_json(a)); }
        let mj: Vec<String> = missing.iter().map(|m| js(m)).collect();
        let argv0 = String::from_utf8_lossy(&plain(&file)).into_owned();
        let argvs: Vec<String> = av.iter().map(|a| String::from_utf8_lossy(&plain(a)).into_owned()).collect();
        let dups = self.libc.actions.get(&acts).cloned().unwrap_or_default();
        let hit = self.libc.procs.iter().find(|p| (argv0 == p.argv0 || argv0.rsplit('/').next() == Some(&p.argv0) || p.argv0 == "*") && p.contains.iter().all(|c| argvs.iter().any(|a| a == c))).cloned();
        let s = format!("[\"spawn\",{},[{}],[{}],[{}],{},{}]", fj, aj.join(","), ej.join(","), mj.join(","), js(hit.as_ref().map(|h| h.id.as_bytes()).unwrap_or(b"")),
            format!("[{}]", dups.iter().map(|d| format!("[{},{}]", d.0, d.1)).collect::<Vec<_>>().join(",")));
        self.ev(s);
        let p = match hit { Some(p) => p, None => return V::C(2) };
        if p.errno != 0 { return V::C(p.errno as u64); }
        for t in [1, 2] {
            if !dups.iter().any(|d| d.1 == t) {
                // inherited
                let path = if t == 1 { p.stdout.clone() } else { p.stderr.clone() };
                let data = self.file_bytes(&path);
                if t == 1 { self.libc.stdout.extend(data) } else { self.libc.stderr.extend(data) }
            }
        }
        for (f, t) in dups {
            if let Some(Fd::PipeW(r)) = self.libc.fds.get(&f).cloned() {
                let path = if t == 1 { p.stdout.clone() } else { p.stderr.clone() };
                let data = self.file_bytes(&path);
                self.libc.fds.insert(r, Fd::Pipe { data, off: 0 });
            }
        }
        self.libc.next_pid += 1;
        let pid = self.libc.next_pid;
        self.libc.children.insert(pid, p.status);
        self.store_n(pidp, 4, &V::C(pid as u64));
        V::C(0)
    }
    #[allow(dead_code)]
    fn rc_unused(&self) -> Rc<()> { Rc::new(()) }
}
