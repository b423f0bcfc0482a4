//! The symbolic executor: an interpreter for LLVM IR over (concrete | expression) values that
//! forks the process at every branch both of whose sides the solver finds feasible.
use crate::expr::*;
use crate::ir::*;
use crate::mem::Mem;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

/// counters shared by all processes of a run
#[repr(C)]
pub struct Shared {
    pub running: AtomicI64,
    pub paths: AtomicU64,
    pub forks: AtomicU64,
    pub stop: AtomicU64,
}

pub struct Proc { pub stdout: Vec<u8>, pub status: i32 }

pub struct Ex {
    pub m: Module,
    pub d: Dag,
    pub z: Z3,
    pub mem: Mem,
    pub regs: Vec<V>,
    pub pc: Vec<(E, bool)>,
    asserted: usize,
    pub dom: Vec<[u64; 4]>,
    pub entangled: Sup,
    pub pinned: Sup,
    decided: HashMap<E, bool>,
    parents: HashMap<(E, u8), E>,
    pub fkind: Vec<u8>,
    pub fhook: Vec<u8>,
    pub executed: Vec<bool>,
    pub steps: u64,
    pub forks: u64,
    pub shared: &'static Shared,
    pub max_par: i64,
    pub trace: Option<String>,
    pub last: Option<V>,
    pub max_paths: u64,
    pub deadline: std::time::Instant,
    own_slot: bool,
    kids: Vec<i32>,
    pub depth: u32,
    pub libc: crate::libc::Libc,
    pub stackfn: Vec<u32>,
}

fn m64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

pub fn dom_count(d: &[u64; 4]) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
pub fn dom_first(d: &[u64; 4]) -> u64 { for i in 0..4 { if d[i] != 0 { return i as u64 * 64 + d[i].trailing_zeros() as u64; } } 0 }
fn dom_and(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn dom_not(a: &[u64; 4]) -> [u64; 4] { [!a[0], !a[1], !a[2], !a[3]] }

impl Ex {
    pub fn new(m: Module, d: Dag, z: Z3, mem: Mem, shared: &'static Shared, libc: crate::libc::Libc) -> Ex {
        let n = m.funcs.len();
        let nv = d.vars.len();
        let dom = d.vars.iter().map(|v| { let mut t = [0u64; 4]; if v.w <= 8 { for i in 0..(1usize << v.w) { t[i / 64] |= 1 << (i % 64); } } t }).collect();
        let _ = nv;
        let mut x = Ex {
            m, d, z, mem, regs: Vec::with_capacity(1 << 20), pc: vec![], asserted: 0, dom, entangled: [0; 4], pinned: [0; 4],
            decided: HashMap::new(), parents: HashMap::new(), fkind: vec![0; n], fhook: vec![0; n], executed: vec![false; n],
            steps: 0, forks: 0, shared, max_par: 8, trace: std::env::var("SYMX_TRACE").ok(), last: None, max_paths: u64::MAX, deadline: std::time::Instant::now() + std::time::Duration::from_secs(86400),
            own_slot: true, kids: vec![], depth: 0, libc, stackfn: vec![],
        };
        x.classify();
        x
    }

    // ------------------------------------------------------------------ values
    #[inline] pub fn to_e(&mut self, v: &V, w: u16) -> E {
        match v {
            V::C(c) => self.d.constant(*c as u128, w),
            V::S(e) => *e,
            V::W(x) => self.d.constant(**x, w),
            V::A(_) => self.fail("aggregate where a scalar is expected"),
        }
    }
    pub fn from_e(&self, e: E) -> V {
        match self.d.cst(e) {
            Some(k) => if self.d.w(e) > 64 { V::W(Rc::new(k)) } else { V::C(k as u64) },
            None => V::S(e),
        }
    }
    pub fn fail(&mut self, msg: &str) -> ! {
        let st: Vec<String> = self.stackfn.iter().rev().take(12).map(|&f| self.m.funcs[f as usize].name.clone()).collect();
        self.finish("error", 0, &format!("{} in {}", msg, st.join(" < ")))
    }
    pub fn ub(&mut self, msg: &str) -> ! {
        let st: Vec<String> = self.stackfn.iter().rev().take(12).map(|&f| self.m.funcs[f as usize].name.clone()).collect();
        self.finish("ub", 0, &format!("{} in {}", msg, st.join(" < ")))
    }
    fn is_unknown_fast(&self, cond: E) -> Option<bool> {
        if let Some(k) = self.d.cst(cond) { return Some(k != 0); }
        if let Some(&b) = self.decided.get(&cond) { return Some(b); }
        None
    }

    // ------------------------------------------------------------------ path condition
    pub fn assume(&mut self, cond: E, b: bool) {
        self.decided.insert(cond, b);
        self.pc.push((cond, b));
        let free = sup_andnot(self.d.sup(cond), self.pinned);
        let l = sup_list(free);
        if l.len() == 1 && self.d.vars[l[0]].w <= 8 {
            let v = l[0];
            let mut t = self.d.truth(cond, v);
            if !b { t = dom_not(&t); }
            self.dom[v] = dom_and(&self.dom[v], &t);
            if dom_count(&self.dom[v]) == 1 { self.pinned[v / 64] |= 1 << (v % 64); }
        } else {
            for v in l { self.entangled[v / 64] |= 1 << (v % 64); }
        }
        // conjunctions: learn the parts too
        if b {
            let n = self.d.n[cond as usize];
            if n.op == Op::And && n.w == 1 { self.learn(n.a); self.learn(n.b); }
        }
    }
    fn learn(&mut self, c: E) {
        if self.d.cst(c).is_some() || self.decided.contains_key(&c) { return; }
        self.decided.insert(c, true);
        let n = self.d.n[c as usize];
        if n.op == Op::And && n.w == 1 { self.learn(n.a); self.learn(n.b); return; }
        if n.op == Op::Xor && n.w == 1 && self.d.cst(n.b) == Some(1) { self.decided.insert(n.a, false); }
        let free = sup_andnot(self.d.sup(c), self.pinned);
        let l = sup_list(free);
        if l.len() == 1 && self.d.vars[l[0]].w <= 8 {
            let v = l[0];
            let t = self.d.truth(c, v);
            self.dom[v] = dom_and(&self.dom[v], &t);
            if dom_count(&self.dom[v]) == 1 { self.pinned[v / 64] |= 1 << (v % 64); }
        }
    }
    fn sync(&mut self) {
        while self.asserted < self.pc.len() {
            let (e, b) = self.pc[self.asserted];
            let t = self.d.to_bool(&mut self.z, e);
            let t = if b { t } else { self.z.not(t) };
            self.z.assert(t);
            self.asserted += 1;
        }
    }
    /// model of PC and cond==want, if there is one
    pub fn query(&mut self, cond: E, want: bool) -> Option<Vec<u64>> {
        self.sync();
        let t = self.d.to_bool(&mut self.z, cond);
        let t = if want { t } else { self.z.not(t) };
        let ids: Vec<E> = self.d.vars.iter().map(|v| v.id).collect();
        let vars: Vec<_> = ids.iter().map(|&i| self.d.to_z3(&mut self.z, i)).collect();
        match self.z.check(Some(t), &vars) {
            (Res::Sat, m) => Some(m),
            (Res::Unsat, _) => None,
            (Res::Unknown, _) => self.fail("solver returned unknown"),
        }
    }
    /// a witness for PC and cond==want, or None when infeasible
    fn feasible(&mut self, cond: E, want: bool) -> Option<Vec<u64>> {
        let free = sup_andnot(self.d.sup(cond), self.pinned);
        let n = sup_count(free);
        if n == 0 { return if (self.d.val(cond) != 0) == want { Some(self.d.witness.clone()) } else { None }; }
        if n == 1 {
            let v = sup_list(free)[0];
            if self.d.vars[v].w <= 8 {
                let mut t = self.d.truth(cond, v);
                if !want { t = dom_not(&t); }
                let c = dom_and(&self.dom[v], &t);
                if dom_count(&c) == 0 { return None; }
                if self.entangled[v / 64] >> (v % 64) & 1 == 0 {
                    let mut w = self.d.witness.clone();
                    w[v] = dom_first(&c);
                    return Some(w);
                }
            }
        }
        self.query(cond, want)
    }

    /// decide a width-1 condition, forking when both sides are feasible
    pub fn branch(&mut self, cond: E) -> bool {
        if let Some(b) = self.is_unknown_fast(cond) { return b; }
        let val = self.d.val(cond) != 0;
        match self.feasible(cond, !val) {
            None => { self.decided.insert(cond, val); val }
            Some(w) => {
                if self.do_fork() {
                    self.d.set_witness(w);
                    self.assume(cond, !val);
                    !val
                } else {
                    self.assume(cond, val);
                    val
                }
            }
        }
    }
    pub fn branch_v(&mut self, v: &V) -> bool {
        match v { V::C(c) => c & 1 != 0, V::S(e) => self.branch(*e), _ => self.fail("branch on aggregate") }
    }
    /// fork over all feasible values of `v`
    pub fn concretize(&mut self, v: &V, w: u16) -> u64 {
        match v {
            V::C(c) => *c,
            V::S(e) => loop {
                let x = self.d.val(*e);
                let k = self.d.constant(x, w);
                let c = self.d.bin(Op::Eq, *e, k);
                if self.branch(c) { return x as u64; }
            },
            V::W(x) => **x as u64,
            V::A(_) => self.fail("concretize aggregate"),
        }
    }
    /// fork until every variable the expression depends on has one value
    pub fn pin_support(&mut self, v: &V) -> V {
        if let V::S(e) = v {
            for i in sup_list(sup_andnot(self.d.sup(*e), self.pinned)) {
                let (id, w) = (self.d.vars[i].id, self.d.vars[i].w);
                self.concretize(&V::S(id), w);
                self.pinned[i / 64] |= 1 << (i % 64);
            }
            let x = self.d.val(*e);
            if self.d.w(*e) > 64 { V::W(Rc::new(x)) } else { V::C(x as u64) }
        } else { v.clone() }
    }

    // ------------------------------------------------------------------ processes
    /// true in the child
    fn do_fork(&mut self) -> bool {
        if self.shared.stop.load(Ordering::Relaxed) != 0 { self.finish("limit", 0, "stopped"); }
        if std::time::Instant::now() > self.deadline { self.shared.stop.store(1, Ordering::Relaxed); self.finish("limit", 0, "deadline"); }
        self.forks += 1;
        let nf = self.shared.forks.fetch_add(1, Ordering::Relaxed);
        if nf >= self.max_paths { self.shared.stop.store(1, Ordering::Relaxed); self.finish("limit", 0, "fork limit"); }
        // reap finished children
        self.kids.retain(|&k| unsafe { waitpid(k, std::ptr::null_mut(), 1) } == 0);
        let mut par = false;
        loop {
            let r = self.shared.running.load(Ordering::SeqCst);
            if r >= self.max_par { break; }
            if self.shared.running.compare_exchange(r, r + 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() { par = true; break; }
        }
        let p = unsafe { fork() };
        if p < 0 { self.fail("fork failed"); }
        if p == 0 {
            self.kids.clear();
            self.own_slot = par;
            self.depth += 1;
            // this path's own share of the work
            self.steps = 0;
            self.z.queries = 0;
            self.z.nanos = 0;
            return true;
        }
        if par { self.kids.push(p); } else {
            let mut st = 0;
            unsafe { waitpid(p, &mut st, 0); }
            if st != 0 { self.child_died(st); }
        }
        false
    }
    fn child_died(&mut self, st: i32) {
        let s = format!("{{\"kind\":\"error\",\"code\":0,\"msg\":\"executor process died, status {}\"}}\n", st);
        self.libc.emit(s.as_bytes());
    }
    pub fn leave(&mut self) -> ! {
        if !self.kids.is_empty() {
            self.shared.running.fetch_sub(1, Ordering::SeqCst);
            for k in std::mem::take(&mut self.kids) {
                let mut st = 0;
                unsafe { waitpid(k, &mut st, 0); }
                if st != 0 { self.child_died(st); }
            }
            if !self.own_slot { self.shared.running.fetch_add(1, Ordering::SeqCst); }
        } else if self.own_slot { self.shared.running.fetch_sub(1, Ordering::SeqCst); }
        unsafe { _exit(0) }
    }
    pub fn finish(&mut self, kind: &str, code: i32, msg: &str) -> ! {
        self.shared.paths.fetch_add(1, Ordering::Relaxed);
        let rec = crate::record::record(self, kind, code, msg);
        self.libc.emit(rec.as_bytes());
        self.leave()
    }

    // ------------------------------------------------------------------ memory
    fn check(&mut self, a: u64, n: u64) {
        if a < 4096 || (a >= FUNC_BASE && a < FUNC_BASE + (1 << 32)) { self.ub(&format!("invalid memory access at {:#x} size {}", a, n)); }
    }
    #[inline] pub fn load_n(&mut self, a: u64, n: u64) -> V {
        if self.mem.has(a, n) {
            if !self.mem.maybe_sym(a, n) { return V::C(self.mem.rd(a, n)); }
            return self.load_sym(a, n);
        }
        self.check(a, n);
        V::C(self.mem.rd(a, n))
    }
    fn load_sym(&mut self, a: u64, n: u64) -> V {
        if (0..n).all(|i| self.mem.sh(a + i) == 0) {
            if n > 8 { let v = self.mem.rd(a, 8) as u128 | (self.mem.rd(a + 8, 8) as u128) << 64; return V::W(Rc::new(v)); }
            return V::C(self.mem.rd(a, n));
        }
        // whole value stored here earlier?
        let e0 = self.mem.sh(a);
        if e0 != 0 {
            if let Some(&p) = self.parents.get(&(e0, n as u8)) {
                let mut ok = true;
                for i in 0..n {
                    let x = self.d.extract(8 * i as u16 + 7, 8 * i as u16, p);
                    let s = self.mem.sh(a + i);
                    let same = if s == 0 { self.d.cst(x) == Some(self.mem.rd(a + i, 1) as u128) } else { s == x };
                    if !same { ok = false; break; }
                }
                if ok { return V::S(p); }
            }
        }
        let mut acc: E = 0;
        for i in 0..n {
            let s = self.mem.sh(a + i);
            let b = if s == 0 { let v = self.mem.rd(a + i, 1); self.d.constant(v as u128, 8) } else { s };
            acc = if i == 0 { b } else { self.d.bin(Op::Concat, b, acc) };
        }
        self.from_e(acc)
    }
    pub fn byte_e(&mut self, a: u64) -> E {
        let s = self.mem.sym(a);
        if s != 0 { s } else { let v = self.mem.rd(a, 1); self.d.constant(v as u128, 8) }
    }
    #[inline] pub fn store_n(&mut self, a: u64, n: u64, v: &V) {
        if let V::C(c) = v {
            if self.mem.has(a, n) {
                self.mem.wr(a, n, *c);
                if self.mem.maybe_sym(a, n) { for i in 0..n { self.mem.set_sh(a + i, 0); } }
                return;
            }
            self.check(a, n);
            self.mem.wr(a, n, *c);
            return;
        }
        if !self.mem.has(a, n) { self.check(a, n); self.fail("symbolic store outside guest memory"); }
        match v {
            V::S(e) => {
                let mut e = *e;
                let w = self.d.w(e);
                if (w as u64) < 8 * n { e = self.d.zext(e, 8 * n as u16); }
                for i in 0..n {
                    let x = self.d.extract(8 * i as u16 + 7, 8 * i as u16, e);
                    match self.d.cst(x) {
                        Some(k) => { self.mem.wr(a + i, 1, k as u64); self.mem.set_sh(a + i, 0); }
                        None => { self.mem.set_sh(a + i, x); if i == 0 && n > 1 { self.parents.insert((x, n as u8), e); } }
                    }
                }
            }
            V::W(x) => for i in 0..n { self.mem.wr(a + i, 1, (**x >> (8 * i)) as u64 & 255); self.mem.set_sh(a + i, 0); },
            _ => self.fail("store_n aggregate"),
        }
    }
    pub fn load_ty(&mut self, a: u64, t: TyId) -> V {
        let ty = self.m.types.t[t as usize].clone();
        match ty {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as u64;
                let v = if matches!(n, 1 | 2 | 4 | 8) { self.load_n(a, n) }
                    else if self.mem.maybe_sym(a, n) { self.load_sym(a, n) }
                    else {
                        let mut x = 0u128;
                        for i in 0..n { x |= (self.mem.rd(a + i, 1) as u128) << (8 * i); }
                        if n > 8 { V::W(Rc::new(x)) } else { V::C(x as u64) }
                    };
                if w % 8 != 0 {
                    match v { V::C(c) => V::C(c & m64(w as u16)), V::S(e) => { let x = self.d.extract(w as u16 - 1, 0, e); self.from_e(x) } o => o }
                } else { v }
            }
            Ty::Ptr | Ty::Double => self.load_n(a, 8),
            Ty::Float => self.load_n(a, 4),
            Ty::Struct(f, _) => {
                let offs = self.m.types.offs[t as usize].clone();
                let v = f.iter().enumerate().map(|(i, &x)| self.load_ty(a + offs[i], x)).collect();
                V::A(Rc::new(v))
            }
            Ty::Vector(n, e) if self.m.types.width(e) % 8 != 0 => {
                let it = self.m.types.get(Ty::Int((n * self.m.types.width(e) as u64) as u32));
                let x = self.load_ty(a, it);
                self.bitcast(&x, it, t)
            }
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let es = self.m.types.size(e);
                let v = (0..n).map(|i| self.load_ty(a + i * es, e)).collect();
                V::A(Rc::new(v))
            }
            _ => self.fail("load of unsupported type"),
        }
    }
    pub fn store_ty(&mut self, a: u64, t: TyId, v: &V) {
        let ty = self.m.types.t[t as usize].clone();
        match ty {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as u64;
                if matches!(n, 1 | 2 | 4 | 8) { self.store_n(a, n, v); }
                else {
                    match v {
                        V::C(c) => for i in 0..n { self.store_n(a + i, 1, &V::C(if i < 8 { c >> (8 * i) & 255 } else { 0 })); },
                        o => self.store_n(a, n, o),
                    }
                }
            }
            Ty::Ptr | Ty::Double => self.store_n(a, 8, v),
            Ty::Float => self.store_n(a, 4, v),
            Ty::Struct(f, _) => {
                let offs = self.m.types.offs[t as usize].clone();
                if let V::A(x) = v { for (i, &ft) in f.iter().enumerate() { self.store_ty(a + offs[i], ft, &x[i]); } } else { self.fail("store struct") }
            }
            Ty::Vector(n, e) if self.m.types.width(e) % 8 != 0 => {
                // packed bits
                let it = self.m.types.get(Ty::Int((n * self.m.types.width(e) as u64) as u32));
                let x = self.bitcast(v, t, it);
                self.store_ty(a, it, &x)
            }
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let es = self.m.types.size(e);
                if let V::A(x) = v { for i in 0..n { self.store_ty(a + i * es, e, &x[i as usize]); } } else { self.fail("store array") }
            }
            _ => self.fail("store of unsupported type"),
        }
    }
    /// feasible concrete addresses of a symbolic pointer (None: too many)
    fn addresses(&mut self, e: E) -> Option<Vec<u64>> {
        let free = sup_andnot(self.d.sup(e), self.pinned);
        let l = sup_list(free);
        let mut out: Vec<u64> = vec![];
        if l.is_empty() { return Some(vec![self.d.val(e) as u64]); }
        if l.len() == 1 && self.d.vars[l[0]].w <= 8 {
            // evaluate the address for every value in the domain (a superset of the feasible set
            // when the variable is entangled: sound, the ITE guards select)
            let v = l[0];
            let w0 = self.d.witness.clone();
            let dom = self.dom[v];
            let mut order = vec![];
            let mut seen = HashMap::new();
            self.d.topo(e, &mut seen, &mut order);
            for x in 0..256usize {
                if dom[x / 64] >> (x % 64) & 1 == 0 { continue; }
                let mut vals = vec![0u128; order.len()];
                for (i, &id) in order.iter().enumerate() {
                    let n = self.d.n[id as usize];
                    vals[i] = match n.op {
                        Op::Const => n.k,
                        Op::Var => if n.k as usize == v { x as u128 } else { w0[n.k as usize] as u128 },
                        _ => { let g = |k: E| if k == 0 { 0 } else { vals[seen[&k]] }; eval(n.op, n.w, self.d.w(n.a), self.d.w(n.b), g(n.a), g(n.b), g(n.c), n.k) }
                    };
                }
                let a = *vals.last().unwrap() as u64;
                if !out.contains(&a) { out.push(a); }
            }
            return Some(out);
        }
        // enumerate with the solver
        let mut cond = self.d.constant(1, 1);
        loop {
            let m = match self.query(cond, true) { Some(m) => m, None => break };
            let save = self.d.witness.clone();
            self.d.set_witness(m);
            let a = self.d.val(e) as u64;
            self.d.set_witness(save);
            out.push(a);
            if out.len() > 64 { return None; }
            let k = self.d.constant(a as u128, 64);
            let q = self.d.bin(Op::Eq, e, k);
            let nq = self.d.not1(q);
            cond = self.d.bin(Op::And, cond, nq);
        }
        Some(out)
    }
    fn load_at(&mut self, p: &V, n: u64) -> V {
        let e = match p { V::C(a) => return self.load_n(*a, n), V::S(e) => *e, _ => self.fail("bad pointer") };
        if sup_empty(sup_andnot(self.d.sup(e), self.pinned)) { let a = self.d.val(e) as u64; return self.load_n(a, n); }
        let addrs = match self.addresses(e) {
            Some(a) => a,
            None => { let a = self.concretize(p, 64); return self.load_n(a, n); }
        };
        // group by content
        let mut acc: Option<V> = None;
        let w = 8 * n as u16;
        for a in addrs {
            let v = self.load_n(a, n);
            acc = Some(match acc {
                None => v,
                Some(o) => {
                    if let (V::C(x), V::C(y)) = (&o, &v) { if x == y { acc = Some(o); continue; } }
                    let k = self.d.constant(a as u128, 64);
                    let c = self.d.bin(Op::Eq, e, k);
                    let (ve, oe) = (self.to_e(&v, w), self.to_e(&o, w));
                    let r = self.d.ite(c, ve, oe);
                    self.from_e(r)
                }
            });
        }
        acc.unwrap()
    }
    pub fn addr(&mut self, p: &V) -> u64 { match p { V::C(a) => *a, o => { let o = o.clone(); self.concretize(&o, 64) } } }

    // ------------------------------------------------------------------ scalar operations
    fn bin(&mut self, op: BinOp, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = m64(w);
                let s = |v: u64| sext64(v, w);
                return V::C(m & match op {
                    BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                    BinOp::UDiv => if y == 0 { self.ub("division by zero") } else { x / y },
                    BinOp::URem => if y == 0 { self.ub("division by zero") } else { x % y },
                    BinOp::SDiv => if y == 0 { self.ub("division by zero") } else { s(x).wrapping_div(s(y)) as u64 },
                    BinOp::SRem => if y == 0 { self.ub("division by zero") } else { s(x).wrapping_rem(s(y)) as u64 },
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
                    BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinOp::AShr => (s(x) >> y.min(63)) as u64,
                });
            }
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let o = match op {
            BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
        };
        let r = self.d.bin(o, x, y);
        self.from_e(r)
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext64(x, w), sext64(y, w));
            return V::C(match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy,
            } as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = match p {
            Pred::Eq => self.d.bin(Op::Eq, x, y),
            Pred::Ne => { let t = self.d.bin(Op::Eq, x, y); self.d.not1(t) }
            Pred::Ult => self.d.bin(Op::Ult, x, y), Pred::Ule => self.d.bin(Op::Ule, x, y),
            Pred::Ugt => self.d.bin(Op::Ult, y, x), Pred::Uge => self.d.bin(Op::Ule, y, x),
            Pred::Slt => self.d.bin(Op::Slt, x, y), Pred::Sle => self.d.bin(Op::Sle, x, y),
            Pred::Sgt => self.d.bin(Op::Slt, y, x), Pred::Sge => self.d.bin(Op::Sle, y, x),
        };
        self.from_e(r)
    }
    fn ext(&mut self, v: &V, from: u16, to: u16, signed: bool) -> V {
        match v {
            V::C(c) if to <= 64 => V::C(if to <= from { c & m64(to) } else if signed { sext64(*c, from) as u64 & m64(to) } else { *c }),
            o => {
                let e = self.to_e(o, from);
                let r = if to <= from { self.d.extract(to - 1, 0, e) } else if signed { self.d.sext(e, to) } else { self.d.zext(e, to) };
                self.from_e(r)
            }
        }
    }
    fn lanes(&self, t: TyId) -> (u64, u16) {
        match &self.m.types.t[t as usize] { Ty::Vector(n, e) => (*n, self.m.types.width(*e)), _ => (1, self.m.types.width(t)) }
    }
    fn bitcast(&mut self, v: &V, from: TyId, to: TyId) -> V {
        let ((fl, fw), (tl, tw)) = (self.lanes(from), self.lanes(to));
        let fvec = matches!(self.m.types.t[from as usize], Ty::Vector(..));
        let tvec = matches!(self.m.types.t[to as usize], Ty::Vector(..));
        if !fvec && !tvec { return v.clone(); }
        let total = fl * fw as u64;
        if total > 128 { self.fail("bitcast wider than 128 bits"); }
        let src: Vec<V> = if fvec { match v { V::A(x) => x.to_vec(), V::C(0) => vec![V::C(0); fl as usize], _ => self.fail("bitcast vec") } } else { vec![v.clone()] };
        let concrete = src.iter().all(|x| !matches!(x, V::S(_)));
        if concrete {
            let mut acc = 0u128;
            for (i, x) in src.iter().enumerate() {
                let k = match x { V::C(c) => *c as u128, V::W(y) => **y, _ => 0 };
                acc |= (k & mask(fw)) << (i as u32 * fw as u32);
            }
            let mk = |k: u128| if tw > 64 { V::W(Rc::new(k)) } else { V::C(k as u64) };
            if !tvec { return mk(acc); }
            return V::A(Rc::new((0..tl).map(|i| mk((acc >> (i as u32 * tw as u32)) & mask(tw))).collect()));
        }
        let mut acc = 0;
        for (i, x) in src.iter().enumerate() {
            let e = self.to_e(x, fw);
            acc = if i == 0 { e } else { self.d.bin(Op::Concat, e, acc) };
        }
        if !tvec { return self.from_e(acc); }
        let mut out = vec![];
        for i in 0..tl as u16 { let e = self.d.extract(i * tw + tw - 1, i * tw, acc); out.push(self.from_e(e)); }
        V::A(Rc::new(out))
    }
    fn vlist(&mut self, v: &V, n: usize) -> Rc<Vec<V>> {
        match v { V::A(x) => x.clone(), V::C(0) => Rc::new(vec![V::C(0); n]), _ => self.fail("vector expected") }
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, v: &V) -> V {
        use CastOp::*;
        match op {
            Bitcast => return self.bitcast(v, from, to),
            _ => {}
        }
        if let (Ty::Vector(n, fe), Ty::Vector(_, te)) = (self.m.types.t[from as usize].clone(), self.m.types.t[to as usize].clone()) {
            let x = self.vlist(v, n as usize);
            let r = x.iter().map(|y| self.cast(op, fe, te, y)).collect();
            return V::A(Rc::new(r));
        }
        let (fw, tw) = (self.m.types.width(from), self.m.types.width(to));
        match op {
            Trunc | ZExt | PtrToInt | IntToPtr => self.ext(v, fw, tw, false),
            SExt => self.ext(v, fw, tw, true),
            _ => {
                let v = self.pin_support(v);
                let c = match v { V::C(c) => c, _ => self.fail("float cast") };
                let f = |b: u64, w: u16| if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
                let g = |x: f64, w: u16| if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
                V::C(match op {
                    UiToFp => g(c as f64, tw), SiToFp => g(sext64(c, fw) as f64, tw),
                    FpToUi => (f(c, fw) as u64) & m64(tw), FpToSi => (f(c, fw) as i64 as u64) & m64(tw),
                    FpExt | FpTrunc => g(f(c, fw), tw),
                    _ => 0,
                })
            }
        }
    }
    fn select(&mut self, c: &V, t: TyId, a: V, b: V) -> V {
        match c {
            V::C(k) => if k & 1 != 0 { a } else { b },
            V::S(e) => {
                if let Some(k) = self.is_unknown_fast(*e) { return if k { a } else { b }; }
                if let (V::C(x), V::C(y)) = (&a, &b) { if x == y { return a; } }
                let isint = matches!(self.m.types.t[t as usize], Ty::Int(_));
                if isint {
                    let w = self.m.types.width(t);
                    let (x, y) = (self.to_e(&a, w), self.to_e(&b, w));
                    let r = self.d.ite(*e, x, y);
                    self.from_e(r)
                } else if self.branch(*e) { a } else { b }
            }
            _ => self.fail("select on aggregate"),
        }
    }

    // ------------------------------------------------------------------ interpreter
    #[inline(always)] fn op<'a>(&'a self, base: usize, o: &'a O) -> &'a V { match o { O::R(r) => &self.regs[base + *r as usize], O::K(v) => v } }

    pub fn call_addr(&mut self, a: u64, args: &[V]) -> V {
        let off = a.wrapping_sub(FUNC_BASE);
        if off & 15 != 0 || (off >> 4) >= self.m.funcs.len() as u64 { self.ub(&format!("call to non-function {:#x}", a)); }
        self.call((off >> 4) as u32, args)
    }

    pub fn call(&mut self, f: u32, args: &[V]) -> V {
        if self.fkind[f as usize] != 0 { return self.external(f, args, T_VOID); }
        if self.fhook[f as usize] != 0 { if let Some(v) = self.hook(f, args) { return v; } }
        let body = match self.m.body(f) { Ok(b) => b, Err(e) => self.fail(&e) };
        self.executed[f as usize] = true;
        self.stackfn.push(f);
        if self.stackfn.len() > 20000 { self.fail("guest recursion too deep"); }
        let base = self.regs.len();
        self.regs.resize(base + body.nregs as usize, V::C(0));
        for (i, a) in args.iter().enumerate() { if i < body.nregs as usize { self.regs[base + i] = a.clone(); } }
        let sp0 = self.mem.sp;
        let mut blk = 0u32;
        let mut prev = u32::MAX;
        let tr = match &self.trace { Some(t) => self.m.funcs[f as usize].name.contains(t.as_str()), None => false };
        let ret = 'run: loop {
            let b = &body.blocks[blk as usize];
            self.steps += b.insts.len() as u64 + 1;
            if (self.steps >> 20) != ((self.steps - b.insts.len() as u64 - 1) >> 20) {
                if std::time::Instant::now() > self.deadline { self.shared.stop.store(1, Ordering::Relaxed); self.finish("limit", 0, "deadline"); }
                if self.shared.stop.load(Ordering::Relaxed) != 0 { self.finish("limit", 0, "stopped"); }
            }
            if !b.phis.is_empty() {
                if b.phis.len() == 1 {
                    let (d, l) = &b.phis[0];
                    let o = match l.iter().find(|x| x.0 == prev) { Some(x) => &x.1, None => self.fail("phi") };
                    let v = self.op(base, o).clone();
                    self.regs[base + *d as usize] = v;
                } else {
                    let mut vals = Vec::with_capacity(b.phis.len());
                    for (_, l) in &b.phis {
                        let o = match l.iter().find(|x| x.0 == prev) { Some(x) => &x.1, None => self.fail("phi") };
                        vals.push(self.op(base, o).clone());
                    }
                    for ((d, _), v) in b.phis.iter().zip(vals) { self.regs[base + *d as usize] = v; }
                }
            }
            if tr {
                eprintln!("-- block {} (from {}) {:?}", blk, prev as i32, b.phis.iter().map(|(d, _)| (*d, self.regs[base + *d as usize].clone())).collect::<Vec<_>>());
                for i in &b.insts { self.inst(base, i); eprintln!("   {:?} => {:?}", i, self.last.take()); }
            } else { for i in &b.insts { self.inst(base, i); } }
            match &b.term {
                Term::Br(t) => { prev = blk; blk = *t; }
                Term::Cond(c, t, e) => {
                    let k = match self.op(base, c) { V::C(k) => k & 1 != 0, v => { let v = v.clone(); self.branch_v(&v) } };
                    prev = blk;
                    blk = if k { *t } else { *e };
                }
                Term::Switch { w, v, def, cases, map } => {
                    let t = match self.op(base, v) {
                        V::C(k) => *map.get(k).unwrap_or(def),
                        V::S(e) => { let e = *e; self.switch(e, *w, *def, cases) }
                        _ => self.fail("switch"),
                    };
                    prev = blk;
                    blk = t;
                }
                Term::Ret(None) => break 'run V::C(0),
                Term::Ret(Some(o)) => break 'run self.op(base, o).clone(),
                Term::Unreachable => self.ub("unreachable executed"),
                Term::Unsupported(s) => { let s = s.to_string(); self.fail(&s) }
            }
        };
        self.mem.sp = sp0;
        self.regs.truncate(base);
        self.stackfn.pop();
        ret
    }
    fn switch(&mut self, e: E, w: u16, def: u32, cases: &[(u64, u32)]) -> u32 {
        if sup_empty(sup_andnot(self.d.sup(e), self.pinned)) {
            let x = self.d.val(e) as u64;
            return cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(def);
        }
        let mut targets: Vec<u32> = vec![];
        for (_, t) in cases { if *t != def && !targets.contains(t) { targets.push(*t); } }
        for t in targets {
            let mut c = self.d.constant(0, 1);
            for (k, ct) in cases {
                if *ct == t { let kk = self.d.constant(*k as u128, w); let q = self.d.bin(Op::Eq, e, kk); c = self.d.bin(Op::Or, c, q); }
            }
            if self.branch(c) { return t; }
        }
        def
    }

    fn inst(&mut self, base: usize, i: &I) {
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; if self.trace.is_some() { self.last = Some(v.clone()); } self.regs[base + *$d as usize] = v; }} }
        macro_rules! get { ($o:expr) => { self.op(base, $o).clone() } }
        match i {
            I::Bin { op, w, d, a, b } => { let (x, y) = (get!(a), get!(b)); let r = self.bin(*op, *w, &x, &y); set!(d, r) }
            I::Icmp { p, w, d, a, b } => { let (x, y) = (get!(a), get!(b)); let r = self.icmp(*p, *w, &x, &y); set!(d, r) }
            I::Load { ty, n, d, a } => {
                let p = get!(a);
                let v = if *n != 0 {
                    let v = self.load_at(&p, *n as u64);
                    if *ty == T_I1 { self.ext(&v, 8, 1, false) } else { v }
                } else { let a = self.addr(&p); self.load_ty(a, *ty) };
                set!(d, v)
            }
            I::Store { ty, n, v, a } => {
                let (x, p) = (get!(v), get!(a));
                let p = self.addr(&p);
                if *n != 0 { self.store_n(p, *n as u64, &x); } else { self.store_ty(p, *ty, &x); }
            }
            I::Gep { d, base: b, off, idx } => {
                let mut v = get!(b);
                if *off != 0 { v = self.bin(BinOp::Add, 64, &v, &V::C(*off as u64)); }
                for (o, w, scale) in idx {
                    let x = get!(o);
                    let x = self.ext(&x, *w, 64, true);
                    let x = if *scale != 1 { self.bin(BinOp::Mul, 64, &x, &V::C(*scale as u64)) } else { x };
                    v = self.bin(BinOp::Add, 64, &v, &x);
                }
                set!(d, v)
            }
            I::Select { ty, d, c, a, b } => { let (c, x, y) = (get!(c), get!(a), get!(b)); let r = self.select(&c, *ty, x, y); set!(d, r) }
            I::Cast { op, from, to, d, a } => { let x = get!(a); let r = self.cast(*op, *from, *to, &x); set!(d, r) }
            I::Call { d, ret, callee, args, argt: _ } => {
                let c = get!(callee);
                let c = self.addr(&c);
                let off = c.wrapping_sub(FUNC_BASE);
                if off & 15 != 0 || (off >> 4) >= self.m.funcs.len() as u64 { self.ub(&format!("call to non-function {:#x}", c)); }
                let f = (off >> 4) as u32;
                if self.fkind[f as usize] == 1 { return; }
                let mut buf: Vec<V> = Vec::with_capacity(args.len());
                for a in args { buf.push(get!(a)); }
                let r = if self.fkind[f as usize] != 0 { self.external(f, &buf, *ret) } else { self.call(f, &buf) };
                if *d != u32::MAX { set!(d, r) }
            }
            I::Asm { d, ret: _, text, args } => {
                let a: Vec<V> = args.iter().map(|x| get!(x)).collect();
                let r = self.asm(text, &a);
                if *d != u32::MAX { set!(d, r) }
            }
            I::Extract { d, a, path } => {
                let mut v = get!(a);
                for &k in path { v = match &v { V::A(x) => x[k as usize].clone(), V::C(0) => V::C(0), _ => self.fail("extractvalue") }; }
                set!(d, v)
            }
            I::Insert { d, a, v, path } => {
                let (mut agg, x) = (get!(a), get!(v));
                fn ins(agg: &mut V, p: &[u32], x: V) -> bool {
                    if p.is_empty() { *agg = x; return true; }
                    match agg { V::A(r) => ins(&mut Rc::make_mut(r)[p[0] as usize], &p[1..], x), _ => false }
                }
                if !ins(&mut agg, path, x) { self.fail("insertvalue"); }
                set!(d, agg)
            }
            I::Mov { d, a } => set!(d, get!(a)),
            I::Alloca { d, size, align } => {
                let a = (self.mem.sp + align - 1) / align * align;
                self.mem.sp = a + size;
                if self.mem.sp > self.mem.sp_max { self.fail("guest stack overflow"); }
                set!(d, V::C(a))
            }
            I::VBin { op, w, d, a, b } => {
                let (x, y) = (get!(a), get!(b));
                let n = match (&x, &y) { (V::A(q), _) | (_, V::A(q)) => q.len(), _ => 0 };
                let (x, y) = (self.vlist(&x, n), self.vlist(&y, n));
                let r = x.iter().zip(y.iter()).map(|(p, q)| self.bin(*op, *w, p, q)).collect();
                set!(d, V::A(Rc::new(r)))
            }
            I::VIcmp { p, w, d, a, b } => {
                let (x, y) = (get!(a), get!(b));
                let n = match (&x, &y) { (V::A(q), _) | (_, V::A(q)) => q.len(), _ => 0 };
                let (x, y) = (self.vlist(&x, n), self.vlist(&y, n));
                let r = x.iter().zip(y.iter()).map(|(s, q)| self.icmp(*p, *w, s, q)).collect();
                set!(d, V::A(Rc::new(r)))
            }
            I::FBin { op, ty, d, a, b } => {
                let (x, y) = (get!(a), get!(b));
                let (x, y) = (self.pin_support(&x), self.pin_support(&y));
                let w = self.m.types.width(*ty);
                let f = |v: &V| { let c = if let V::C(c) = v { *c } else { 0 }; if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) } };
                let (p, q) = (f(&x), f(&y));
                let r = match op { 0 => p + q, 1 => p - q, 2 => p * q, 3 => p / q, 4 => -p, _ => p % q };
                set!(d, V::C(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() }))
            }
            I::Fcmp { p, ty, d, a, b } => {
                let (x, y) = (get!(a), get!(b));
                let (x, y) = (self.pin_support(&x), self.pin_support(&y));
                let w = self.m.types.width(*ty);
                let f = |v: &V| { let c = if let V::C(c) = v { *c } else { 0 }; if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) } };
                let (s, q) = (f(&x), f(&y));
                let uno = s.is_nan() || q.is_nan();
                let r = match &**p {
                    "oeq" => s == q, "ogt" => s > q, "oge" => s >= q, "olt" => s < q, "ole" => s <= q, "one" => !uno && s != q, "ord" => !uno,
                    "ueq" => uno || s == q, "ugt" => uno || s > q, "uge" => uno || s >= q, "ult" => uno || s < q, "ule" => uno || s <= q, "une" => s != q, "uno" => uno,
                    _ => self.fail("fcmp"),
                };
                set!(d, V::C(r as u64))
            }
            I::ExtractEl { d, a, i } => {
                let (x, k) = (get!(a), get!(i));
                let k = self.concretize(&k, 64) as usize;
                let v = match &x { V::A(l) => l[k].clone(), V::C(0) => V::C(0), _ => self.fail("extractelement") };
                set!(d, v)
            }
            I::InsertEl { d, a, v, i } => {
                let (x, y, k) = (get!(a), get!(v), get!(i));
                let k = self.concretize(&k, 64) as usize;
                let mut l = match x { V::A(l) => l, _ => self.fail("insertelement") };
                Rc::make_mut(&mut l)[k] = y;
                set!(d, V::A(l))
            }
            I::Shuffle { d, a, b, m } => {
                let (x, y) = (get!(a), get!(b));
                let n = match (&x, &y) { (V::A(q), _) | (_, V::A(q)) => q.len(), _ => 0 };
                let (x, y) = (self.vlist(&x, n), self.vlist(&y, n));
                let r = m.iter().map(|&k| { let k = k as usize; if k < n { x[k].clone() } else if k - n < y.len() { y[k - n].clone() } else { V::C(0) } }).collect();
                set!(d, V::A(Rc::new(r)))
            }
            I::Rmw { op, w, d, a, v } => {
                let (p, x) = (get!(a), get!(v));
                let p = self.addr(&p);
                let n = (*w as u64 + 7) / 8;
                let old = self.load_n(p, n);
                let new = match &**op {
                    "xchg" => x, "add" => self.bin(BinOp::Add, *w, &old, &x), "sub" => self.bin(BinOp::Sub, *w, &old, &x),
                    "and" => self.bin(BinOp::And, *w, &old, &x), "or" => self.bin(BinOp::Or, *w, &old, &x), "xor" => self.bin(BinOp::Xor, *w, &old, &x),
                    "max" | "min" | "umax" | "umin" => {
                        let pr = match &**op { "max" => Pred::Sgt, "min" => Pred::Slt, "umax" => Pred::Ugt, _ => Pred::Ult };
                        let c = self.icmp(pr, *w, &old, &x);
                        if self.branch_v(&c) { old.clone() } else { x }
                    }
                    o => { let s = format!("atomicrmw {}", o); self.fail(&s) }
                };
                self.store_n(p, n, &new);
                set!(d, old)
            }
            I::CmpXchg { w, d, a, c, n } => {
                let (p, e, x) = (get!(a), get!(c), get!(n));
                let p = self.addr(&p);
                let k = (*w as u64 + 7) / 8;
                let old = self.load_n(p, k);
                let q = self.icmp(Pred::Eq, *w, &old, &e);
                let ok = self.branch_v(&q);
                if ok { self.store_n(p, k, &x); }
                set!(d, V::A(Rc::new(vec![old, V::C(ok as u64)])))
            }
            I::Nop => {}
            I::Unsupported(s) => { let s = s.to_string(); self.fail(&s) }
        }
    }

    // ------------------------------------------------------------------ intrinsics
    fn classify(&mut self) {
        for i in 0..self.m.funcs.len() {
            let f = &self.m.funcs[i];
            let n = &f.name;
            if !f.defined {
                self.fkind[i] = if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n == "llvm.x86.sse2.pause" { 1 }
                    else if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") { 2 }
                    else if n.starts_with("llvm.memset") { 3 }
                    else if n.starts_with("llvm.") { 4 }
                    else { 5 };
                continue;
            }
            let h = if n.contains("5slice6memchr14memchr_aligned") { 1 }
                else if n.contains("5slice6memchr15memrchr_aligned") { 2 }
                else if n.contains("6memchr3x866memchr6detect") { 1 }
                else if n.contains("6memchr10memchr_raw6detect") { 4 }
                else if n.contains("3fmt3num3imp") && n.contains("7Display3fmt") { 3 }
                else { 0 };
            self.fhook[i] = h;
        }
    }

    fn hook(&mut self, f: u32, args: &[V]) -> Option<V> {
        let none = || V::A(Rc::new(vec![V::C(0), V::C(0)]));
        match self.fhook[f as usize] {
            k @ (1 | 2) => {
                let (p, n) = (self.addr(&args[1]), self.addr(&args[2]));
                if !matches!(args[0], V::S(_)) && !(self.mem.has(p, n) && self.mem.maybe_sym(p, n)) {
                    let c = if let V::C(c) = args[0] { c as u8 } else { 0 };
                    let s = self.mem.bytes(p, n);
                    let r = if k == 1 { s.iter().position(|&x| x == c) } else { s.iter().rposition(|&x| x == c) };
                    return Some(match r { Some(i) => V::A(Rc::new(vec![V::C(1), V::C(i as u64)])), None => none() });
                }
                let c = self.to_e(&args[0], 8);
                for j in 0..n {
                    let i = if k == 1 { j } else { n - 1 - j };
                    let b = self.byte_e(p + i);
                    let q = self.d.bin(Op::Eq, b, c);
                    if self.branch(q) { return Some(V::A(Rc::new(vec![V::C(1), V::C(i)]))); }
                }
                Some(none())
            }
            4 => {
                let (p, e) = (self.addr(&args[1]), self.addr(&args[2]));
                let c = self.to_e(&args[0], 8);
                let mut a = p;
                while a < e {
                    let b = self.byte_e(a);
                    let q = self.d.bin(Op::Eq, b, c);
                    if self.branch(q) { return Some(V::A(Rc::new(vec![V::C(1), V::C(a)]))); }
                    a += 1;
                }
                Some(none())
            }
            3 => {
                // <uN as Display>::fmt on a symbolic value: emit a placeholder that names the expression
                let name = self.m.funcs[f as usize].name.clone();
                let k = name.find("3fmt3num3imp").unwrap() + 12;
                let (w, signed) = match name.as_bytes()[k] { b'h' => (8, false), b't' => (16, false), b'm' => (32, false), b'y' | b'j' => (64, false), b'a' => (8, true), b's' => (16, true), b'l' => (32, true), b'x' | b'i' => (64, true), _ => return None };
                let p = self.addr(&args[0]);
                let v = self.load_n(p, w / 8);
                let e = match v { V::S(e) => e, _ => return None };
                if sup_empty(sup_andnot(self.d.sup(e), self.pinned)) {
                    let x = self.d.val(e) as u64;
                    // value is determined: let the real code format it
                    let t = self.mem.alloc(8, 16);
                    self.store_n(t, w / 8, &V::C(x));
                    let mut a = args.to_vec();
                    a[0] = V::C(t);
                    self.fhook[f as usize] = 0;
                    let r = self.call(f, &a);
                    self.fhook[f as usize] = 3;
                    return Some(r);
                }
                let pad = match self.m.fmap.iter().find(|(n, _)| n.ends_with("9Formatter12pad_integral")) { Some((_, &i)) => i, None => self.fail("pad_integral not found") };
                let s = format!("\u{1}{}{}\u{2}", if signed { "I" } else { "S" }, e);
                let b = self.mem.put(s.as_bytes());
                self.libc.keep.push(e);
                Some(self.call(pad, &[args[1].clone(), V::C(1), V::C(1), V::C(0), V::C(b), V::C(s.len() as u64)]))
            }
            _ => None,
        }
    }

    fn asm(&mut self, text: &str, a: &[V]) -> V {
        if text.is_empty() { return a.first().cloned().unwrap_or(V::C(0)); }
        if text.contains("cpuid") { return V::A(Rc::new(vec![V::C(0); 4])); }
        if text == "syscall" {
            let nr = self.addr(&a[0]);
            if nr == 16 { return V::A(Rc::new(vec![V::C((-25i64) as u64), V::C(0), V::C(0)])); } // ioctl: ENOTTY
        }
        let s = format!("inline asm `{}`", text);
        self.fail(&s)
    }

    pub fn external(&mut self, f: u32, args: &[V], ret: TyId) -> V {
        match self.fkind[f as usize] {
            1 => V::C(0),
            2 => {
                let n = self.addr(&args[2]);
                if n == 0 { return V::C(0); }
                let (d, s) = (self.addr(&args[0]), self.addr(&args[1]));
                if !self.mem.has(d, n) { self.check(d, n); }
                if !self.mem.has(s, n) { self.check(s, n); }
                self.mem.copy(d, s, n);
                V::C(0)
            }
            3 => {
                let n = self.addr(&args[2]);
                if n == 0 { return V::C(0); }
                let d = self.addr(&args[0]);
                if !self.mem.has(d, n) { self.check(d, n); }
                match &args[1] {
                    V::C(c) => {
                        unsafe { std::ptr::write_bytes(d as *mut u8, *c as u8, n as usize); }
                        self.mem.clear(d, n);
                    }
                    v => { let v = v.clone(); for i in 0..n { self.store_n(d + i, 1, &v); } }
                }
                V::C(0)
            }
            4 => self.intrinsic(f, args, ret),
            _ => {
                let n = self.m.funcs[f as usize].name.clone();
                self.executed[f as usize] = true;
                let r = self.libc_call(&n, args);
                match (&r, &self.m.types.t[ret as usize]) {
                    (V::C(c), Ty::Int(w)) if *w < 64 => V::C(c & ((1u64 << w) - 1)),
                    _ => r,
                }
            }
        }
    }

    fn intrinsic(&mut self, f: u32, args: &[V], ret: TyId) -> V {
        let name = self.m.funcs[f as usize].name.clone();
        let parts: Vec<&str> = name[5..].split('.').collect();
        let w: u16 = parts.iter().rev().find_map(|s| s.strip_prefix('i').and_then(|x| x.parse().ok())).unwrap_or(64);
        // vectors: element-wise
        if let Some(v) = parts.iter().find_map(|s| { let r = s.strip_prefix('v')?; let k = r.find('i')?; let n: usize = r[..k].parse().ok()?; let e: u16 = r[k + 1..].parse().ok()?; Some((n, e)) }) {
            return self.vintrinsic(&parts, v.0, v.1, args);
        }
        let two = |a: V, b: V| V::A(Rc::new(vec![a, b]));
        let _ = ret;
        match parts[0] {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match parts[0] { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                let c = self.icmp(p, w, &args[0], &args[1]);
                let t = self.m.types.get(Ty::Int(w as u32));
                self.select(&c, t, args[0].clone(), args[1].clone())
            }
            "fshl" | "fshr" => {
                let (mut a, mut b) = (args[0].clone(), args[1].clone());
                if w == 64 && (matches!(a, V::S(_)) || matches!(b, V::S(_))) { a = self.pin_support(&a); b = self.pin_support(&b); }
                let s = self.concretize(&args[2], w) as u32 % w as u32;
                let s = if parts[0] == "fshl" { s } else { (w as u32 - s) % w as u32 };
                let fr = parts[0] == "fshr";
                if s == 0 { return if fr { b } else { a }; }
                let hi = self.bin(BinOp::Shl, w, &a, &V::C(s as u64));
                let lo = self.bin(BinOp::LShr, w, &b, &V::C((w as u32 - s) as u64));
                self.bin(BinOp::Or, w, &hi, &lo)
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let a = match (&args[0], parts[0]) {
                    (V::S(e), "bswap") => {
                        let n = w / 8;
                        let mut acc = 0;
                        for i in 0..n { let b = self.d.extract(8 * i + 7, 8 * i, *e); acc = if i == 0 { b } else { self.d.bin(Op::Concat, acc, b) }; }
                        return self.from_e(acc);
                    }
                    (V::S(e), "ctpop") => {
                        let e = *e;
                        let mut acc = self.d.constant(0, w);
                        for i in 0..w { let b = self.d.extract(i, i, e); let z = self.d.zext(b, w); acc = self.d.bin(Op::Add, acc, z); }
                        return self.from_e(acc);
                    }
                    (V::S(e), "cttz") | (V::S(e), "ctlz") => {
                        let e = *e;
                        let mut acc = self.d.constant(w as u128, w);
                        for j in 0..w {
                            let i = if parts[0] == "cttz" { w - 1 - j } else { j };
                            let pos = if parts[0] == "cttz" { i } else { w - 1 - i };
                            let b = self.d.extract(i, i, e);
                            let k = self.d.constant(pos as u128, w);
                            acc = self.d.ite(b, k, acc);
                        }
                        return self.from_e(acc);
                    }
                    (v, _) => self.pin_support(v),
                };
                let x = match a { V::C(c) => c as u128, V::W(x) => *x, _ => self.fail("bit intrinsic") };
                let r: u128 = match parts[0] {
                    "ctpop" => x.count_ones() as u128,
                    "ctlz" => (x.leading_zeros() - (128 - w as u32)) as u128,
                    "cttz" => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                    "bswap" => x.swap_bytes() >> (128 - w as u32),
                    _ => x.reverse_bits() >> (128 - w as u32),
                };
                if w > 64 { V::W(Rc::new(r)) } else { V::C(r as u64) }
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let op = match &parts[0][1..] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
                let signed = parts[0].starts_with('s');
                let x = self.bin(op, w, &args[0], &args[1]);
                // overflow: compare with the double-width result
                let w2 = 2 * w;
                let ov = if w2 > 128 { self.fail("overflow intrinsic too wide") } else {
                    if let (V::C(p), V::C(q)) = (&args[0], &args[1]) {
                        let (p, q) = if signed { (sext64(*p, w) as i128, sext64(*q, w) as i128) } else { (*p as i128, *q as i128) };
                        let r = match op { BinOp::Add => p + q, BinOp::Sub => p - q, _ => p.wrapping_mul(q) };
                        let over = if signed { r != sx(r as u128 & mask(w), w) } else if op == BinOp::Mul { (p as u128).wrapping_mul(q as u128) >> w != 0 } else { r < 0 || (r as u128) >> w != 0 };
                        V::C(over as u64)
                    } else {
                        let (p, q) = (self.ext(&args[0], w, w2, signed), self.ext(&args[1], w, w2, signed));
                        let r = self.bin(op, w2, &p, &q);
                        let t = self.ext(&x, w, w2, signed);
                        self.icmp(Pred::Ne, w2, &r, &t)
                    }
                };
                if parts[1] == "with" { return two(x, ov); }
                // saturating
                let sat = match (signed, op) {
                    (false, BinOp::Add) => V::C(m64(w)),
                    (false, _) => V::C(0),
                    (true, _) => {
                        let neg = self.icmp(Pred::Slt, w, &args[0], &V::C(0));
                        let t = self.m.types.get(Ty::Int(w as u32));
                        self.select(&neg, t, V::C(1u64 << (w - 1)), V::C(m64(w) >> 1))
                    }
                };
                let t = self.m.types.get(Ty::Int(w as u32));
                self.select(&ov, t, sat, x)
            }
            "ucmp" | "scmp" => {
                // llvm.ucmp.<ret>.<arg>
                let aw: u16 = parts[2][1..].parse().unwrap();
                let rw: u16 = parts[1][1..].parse().unwrap();
                let s = parts[0] == "scmp";
                let lt = self.icmp(if s { Pred::Slt } else { Pred::Ult }, aw, &args[0], &args[1]);
                let gt = self.icmp(if s { Pred::Sgt } else { Pred::Ugt }, aw, &args[0], &args[1]);
                let t = self.m.types.get(Ty::Int(rw as u32));
                let x = self.select(&gt, t, V::C(1), V::C(0));
                self.select(&lt, t, V::C(m64(rw)), x)
            }
            "abs" => {
                let neg = self.icmp(Pred::Slt, w, &args[0], &V::C(0));
                let m = self.bin(BinOp::Sub, w, &V::C(0), &args[0]);
                let t = self.m.types.get(Ty::Int(w as u32));
                self.select(&neg, t, m, args[0].clone())
            }
            "fabs" => match &args[0] { V::C(c) => V::C(c & !(1 << 63)), _ => self.fail("fabs") },
            "is" => V::C(0), // is.constant
            "threadlocal" => args[0].clone(),
            "expect" => args[0].clone(),
            "trap" => self.finish("abort", 134, "llvm.trap"),
            "ptrmask" => self.bin(BinOp::And, 64, &args[0], &args[1]),
            "x86" if parts[1] == "xgetbv" => V::C(0),
            _ => { let s = format!("intrinsic {}", name); self.fail(&s) }
        }
    }
    fn vintrinsic(&mut self, parts: &[&str], n: usize, w: u16, args: &[V]) -> V {
        let l: Vec<Rc<Vec<V>>> = args.iter().filter_map(|a| if let V::A(x) = a { Some(x.clone()) } else { None }).collect();
        let t = self.m.types.get(Ty::Int(w as u32));
        match parts[0] {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match parts[0] { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                let mut r = vec![];
                for i in 0..n { let c = self.icmp(p, w, &l[0][i], &l[1][i]); r.push(self.select(&c, t, l[0][i].clone(), l[1][i].clone())); }
                V::A(Rc::new(r))
            }
            "vector" if parts[1] == "reduce" => {
                let op = match parts[2] { "add" => BinOp::Add, "or" => BinOp::Or, "and" => BinOp::And, "xor" => BinOp::Xor, "mul" => BinOp::Mul, _ => { let s = format!("vector.reduce.{}", parts[2]); self.fail(&s) } };
                let mut acc = l[0][0].clone();
                for i in 1..n { acc = self.bin(op, w, &acc, &l[0][i]); }
                acc
            }
            _ => { let s = format!("vector intrinsic {:?}", parts); self.fail(&s) }
        }
    }
}
