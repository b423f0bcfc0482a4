//! Hash-consed bit-vector expression DAG with constant folding and concolic
//! evaluation under the current witness.
use crate::z3::{Ast, Z3};
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
}

pub fn op_name(o: Op) -> &'static str {
    match o {
        Op::Const => "const", Op::Var => "var", Op::Add => "add", Op::Sub => "sub", Op::Mul => "mul",
        Op::UDiv => "udiv", Op::URem => "urem", Op::SDiv => "sdiv", Op::SRem => "srem", Op::And => "and",
        Op::Or => "or", Op::Xor => "xor", Op::Shl => "shl", Op::LShr => "lshr", Op::AShr => "ashr",
        Op::Eq => "eq", Op::Ult => "ult", Op::Ule => "ule", Op::Slt => "slt", Op::Sle => "sle",
        Op::Ite => "ite", Op::Concat => "concat", Op::Extract => "extract", Op::ZExt => "zext", Op::SExt => "sext",
    }
}
pub fn op_by_name(s: &str) -> Option<Op> {
    use Op::*;
    for o in [Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt] {
        if op_name(o) == s { return Some(o); }
    }
    None
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key { op: Op, w: u16, a: E, b: E, c: E, k: u128 }

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E,
    pub k: u128,
    pub val: u128,
    pub sup: [u64; 4],
}

pub type Sup = [u64; 4];
pub fn sup_or(a: Sup, b: Sup) -> Sup { [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]] }
pub fn sup_andnot(a: Sup, b: Sup) -> Sup { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
pub fn sup_empty(a: Sup) -> bool { (a[0] | a[1] | a[2] | a[3]) == 0 }
pub fn sup_count(a: Sup) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn sup_list(a: Sup) -> Vec<usize> {
    let mut v = vec![];
    for i in 0..256 { if a[i / 64] >> (i % 64) & 1 == 1 { v.push(i) } }
    v
}
pub fn sup_and(a: Sup, b: Sup) -> Sup { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }

pub struct VarInfo { pub name: String, pub w: u16, pub id: E }

pub struct Dag {
    pub n: Vec<Node>,
    cons: HashMap<Key, E>,
    z: Vec<Ast>,
    pub vars: Vec<VarInfo>,
    pub witness: Vec<u64>,
}

#[inline]
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

pub fn eval(op: Op, w: u16, wa: u16, wb: u16, a: u128, b: u128, c: u128, k: u128) -> u128 {
    use Op::*;
    let m = mask(w);
    match op {
        Const => k, Var => k,
        Add => a.wrapping_add(b) & m, Sub => a.wrapping_sub(b) & m, Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => if b == 0 { if sx(a, wa) < 0 { 1 } else { m } } else { (sx(a, wa).wrapping_div(sx(b, wb)) as u128) & m },
        SRem => if b == 0 { a } else { (sx(a, wa).wrapping_rem(sx(b, wb)) as u128) & m },
        And => a & b, Or => a | b, Xor => a ^ b,
        Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; ((sx(a, wa) >> s) as u128) & m }
        Eq => (a == b) as u128, Ult => (a < b) as u128, Ule => (a <= b) as u128,
        Slt => (sx(a, wa) < sx(b, wb)) as u128, Sle => (sx(a, wa) <= sx(b, wb)) as u128,
        Ite => if a != 0 { b } else { c },
        Concat => (a << wb) | b,
        Extract => (a >> k) & m,
        ZExt => a,
        SExt => (sx(a, wa) as u128) & m,
    }
}

impl Dag {
    pub fn new() -> Dag {
        let mut d = Dag { n: vec![], cons: HashMap::new(), z: vec![], vars: vec![], witness: vec![] };
        // id 0 is reserved: "no expression"
        d.n.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0, val: 0, sup: [0; 4] });
        d.z.push(std::ptr::null_mut());
        d
    }
    fn intern(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        let key = Key { op, w, a, b, c, k };
        if let Some(&e) = self.cons.get(&key) { return e; }
        let (na, nb, nc) = (self.n[a as usize], self.n[b as usize], self.n[c as usize]);
        let val = match op {
            Op::Const => k,
            Op::Var => self.witness[k as usize] as u128,
            _ => eval(op, w, na.w, nb.w, na.val, nb.val, nc.val, k),
        };
        let mut sup = sup_or(sup_or(na.sup, nb.sup), nc.sup);
        if op == Op::Var { sup[k as usize / 64] |= 1 << (k as usize % 64); }
        let e = self.n.len() as E;
        self.n.push(Node { op, w, a, b, c, k, val, sup });
        self.z.push(std::ptr::null_mut());
        self.cons.insert(key, e);
        e
    }
    pub fn var(&mut self, name: &str, w: u16) -> E {
        let i = self.vars.len();
        assert!(i < 256, "too many symbolic variables");
        self.witness.push(0);
        let id = self.intern(Op::Var, w, 0, 0, 0, i as u128);
        self.vars.push(VarInfo { name: name.into(), w, id });
        id
    }
    pub fn constant(&mut self, v: u128, w: u16) -> E { self.intern(Op::Const, w, 0, 0, 0, v & mask(w)) }
    #[inline] pub fn w(&self, e: E) -> u16 { self.n[e as usize].w }
    #[inline] pub fn val(&self, e: E) -> u128 { self.n[e as usize].val }
    #[inline] pub fn sup(&self, e: E) -> Sup { self.n[e as usize].sup }
    #[inline] pub fn cst(&self, e: E) -> Option<u128> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    #[inline] fn nd(&self, e: E) -> Node { self.n[e as usize] }

    /// re-evaluate everything under a new witness
    pub fn set_witness(&mut self, w: Vec<u64>) {
        self.witness = w;
        for i in 1..self.n.len() {
            let n = self.n[i];
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => self.witness[n.k as usize] as u128,
                _ => {
                    let (a, b, c) = (&self.n[n.a as usize], &self.n[n.b as usize], &self.n[n.c as usize]);
                    eval(n.op, n.w, a.w, b.w, a.val, b.val, c.val, n.k)
                }
            };
            self.n[i].val = v;
        }
    }

    /// set of values of 8-bit-or-smaller variable `v` for which the width-1 expression holds
    /// (all other variables in its support are taken at their witness value)
    pub fn truth(&self, e: E, v: usize) -> [u64; 4] {
        // collect the sub-DAG
        let mut order = vec![];
        let mut seen = HashMap::new();
        self.topo(e, &mut seen, &mut order);
        let mut vals = vec![0u128; order.len()];
        let mut out = [0u64; 4];
        let w = self.vars[v].w;
        for x in 0..(1u32 << w) {
            for (i, &id) in order.iter().enumerate() {
                let n = &self.n[id as usize];
                vals[i] = match n.op {
                    Op::Const => n.k,
                    Op::Var => if n.k as usize == v { x as u128 } else { self.witness[n.k as usize] as u128 },
                    _ => {
                        let g = |k: E| if k == 0 { 0 } else { vals[seen[&k]] };
                        eval(n.op, n.w, self.n[n.a as usize].w, self.n[n.b as usize].w, g(n.a), g(n.b), g(n.c), n.k)
                    }
                };
            }
            if *vals.last().unwrap() != 0 { out[x as usize / 64] |= 1 << (x % 64); }
        }
        out
    }
    pub fn topo(&self, e: E, seen: &mut HashMap<E, usize>, order: &mut Vec<E>) {
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if x == 0 || seen.contains_key(&x) { continue; }
            if done { seen.insert(x, order.len()); order.push(x); continue; }
            stack.push((x, true));
            let n = &self.n[x as usize];
            for k in [n.a, n.b, n.c] { if k != 0 && !seen.contains_key(&k) { stack.push((k, false)); } }
        }
    }

    // ---------------------------------------------------------------- builders
    pub fn not1(&mut self, a: E) -> E { let one = self.constant(1, 1); self.bin(Op::Xor, a, one) }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        use Op::*;
        let wa = self.w(a);
        debug_assert!(matches!(op, Concat) || wa == self.w(b), "width mismatch {:?} {} {}", op, wa, self.w(b));
        let w = match op { Eq | Ult | Ule | Slt | Sle => 1, Concat => wa + self.w(b), _ => wa };
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = eval(op, w, wa, self.w(b), x, y, 0, 0);
            return self.constant(v, w);
        }
        // commutative: constant on the right
        if ca.is_some() && matches!(op, Add | Mul | And | Or | Xor | Eq) { return self.bin(op, b, a); }
        let m = mask(wa);
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let n = self.nd(a);
                    if n.op == Add { if let Some(x) = self.cst(n.b) { let k = self.constant(x.wrapping_add(y), w); return self.bin(Add, n.a, k); } }
                }
            }
            Sub => {
                if a == b { return self.constant(0, w); }
                if let Some(y) = cb { let k = self.constant((!y).wrapping_add(1) & m, w); return self.bin(Add, a, k); }
            }
            Mul => {
                if cb == Some(0) { return self.constant(0, w); }
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.constant(y.trailing_zeros() as u128, w); return self.bin(Shl, a, k); } }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.constant(y.trailing_zeros() as u128, w); return self.bin(LShr, a, k); } }
            }
            URem => {
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.constant(y - 1, w); return self.bin(And, a, k); } }
            }
            And => {
                if a == b { return a; }
                if let Some(y) = cb {
                    if y == 0 { return self.constant(0, w); }
                    if y == m { return a; }
                    // low mask: zext(extract)
                    if (y + 1).is_power_of_two() {
                        let k = y.trailing_ones() as u16;
                        let x = self.extract(k - 1, 0, a);
                        return self.zext(x, w);
                    }
                    let n = self.nd(a);
                    if n.op == ZExt {
                        let k = self.constant(y & mask(self.w(n.a)), self.w(n.a));
                        let x = self.bin(And, n.a, k);
                        return self.zext(x, w);
                    }
                    if n.op == And { if let Some(x) = self.cst(n.b) { let k = self.constant(x & y, w); return self.bin(And, n.a, k); } }
                } else {
                    let (na, nb) = (self.nd(a), self.nd(b));
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(And, na.a, nb.a); return self.zext(x, w);
                    }
                }
            }
            Or => {
                if a == b { return a; }
                if let Some(y) = cb { if y == 0 { return a; } if y == m { return b; } }
                else {
                    let (na, nb) = (self.nd(a), self.nd(b));
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(Or, na.a, nb.a); return self.zext(x, w);
                    }
                    // or(concat(x, 0s), zext(y)) with y fitting below => concat
                    for (p, q) in [(na, nb), (nb, na)] {
                        if p.op == Concat && q.op == ZExt {
                            if let Some(0) = self.cst(p.b) {
                                let lw = self.w(p.b); let qw = self.w(q.a);
                                if qw <= lw { let lo = self.zext(q.a, lw); return self.bin(Concat, p.a, lo); }
                            }
                        }
                    }
                }
            }
            Xor => {
                if a == b { return self.constant(0, w); }
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    let n = self.nd(a);
                    if n.op == Xor { if let Some(x) = self.cst(n.b) { let k = self.constant(x ^ y, w); return self.bin(Xor, n.a, k); } }
                    if n.op == ZExt && y & !mask(self.w(n.a)) == 0 {
                        let k = self.constant(y, self.w(n.a));
                        let x = self.bin(Xor, n.a, k);
                        return self.zext(x, w);
                    }
                    if w == 1 && n.op == Ite {
                        let (x, y2) = (self.bin(Xor, n.b, b), self.bin(Xor, n.c, b));
                        if self.cst(x).is_some() || self.cst(y2).is_some() { return self.ite(n.a, x, y2); }
                    }
                }
            }
            Shl => if let Some(y) = cb {
                if y == 0 { return a; }
                if y >= w as u128 { return self.constant(0, w); }
                // concat(extract(a, w-y-1..0), 0)
                let hi = self.extract(w - y as u16 - 1, 0, a);
                let z = self.constant(0, y as u16);
                return self.bin(Concat, hi, z);
            },
            LShr => if let Some(y) = cb {
                if y == 0 { return a; }
                if y >= w as u128 { return self.constant(0, w); }
                let x = self.extract(w - 1, y as u16, a);
                return self.zext(x, w);
            },
            AShr => if let Some(y) = cb {
                if y == 0 { return a; }
                let y = y.min(w as u128 - 1) as u16;
                let x = self.extract(w - 1, y, a);
                return self.sext(x, w);
            },
            Eq => {
                if a == b { return self.constant(1, 1); }
                let n = self.nd(a);
                if let Some(y) = cb {
                    if wa == 1 { return if y == 1 { a } else { self.not1(a) }; }
                    match n.op {
                        ZExt => {
                            let iw = self.w(n.a);
                            if y & !mask(iw) != 0 { return self.constant(0, 1); }
                            let k = self.constant(y, iw); return self.bin(Eq, n.a, k);
                        }
                        SExt => {
                            let iw = self.w(n.a);
                            let t = y & mask(iw);
                            if (sx(t, iw) as u128) & m != y { return self.constant(0, 1); }
                            let k = self.constant(t, iw); return self.bin(Eq, n.a, k);
                        }
                        Concat => {
                            let lw = self.w(n.b);
                            let (h, l) = (self.constant(y >> lw, self.w(n.a)), self.constant(y & mask(lw), lw));
                            let (x, z) = (self.bin(Eq, n.a, h), self.bin(Eq, n.b, l));
                            return self.bin(And, x, z);
                        }
                        Ite => {
                            if self.cst(n.b).is_some() || self.cst(n.c).is_some() {
                                let (x, z) = (self.bin(Eq, n.b, b), self.bin(Eq, n.c, b));
                                return self.ite(n.a, x, z);
                            }
                        }
                        Xor => if let Some(x) = self.cst(n.b) { let k = self.constant(x ^ y, wa); return self.bin(Eq, n.a, k); },
                        Add => if let Some(x) = self.cst(n.b) { let k = self.constant(y.wrapping_sub(x) & m, wa); return self.bin(Eq, n.a, k); },
                        _ => {}
                    }
                } else {
                    let nb = self.nd(b);
                    if n.op == ZExt && nb.op == ZExt && self.w(n.a) == self.w(nb.a) { return self.bin(Eq, n.a, nb.a); }
                }
            }
            Ult | Ule => {
                if a == b { return self.constant((op == Ule) as u128, 1); }
                if let Some(y) = cb {
                    if op == Ult && y == 0 { return self.constant(0, 1); }
                    if op == Ule && y == m { return self.constant(1, 1); }
                    if op == Ule { let k = self.constant(y + 1, wa); return self.bin(Ult, a, k); }
                    if y == 1 { let z = self.constant(0, wa); return self.bin(Eq, a, z); }
                    let n = self.nd(a);
                    if n.op == ZExt {
                        let iw = self.w(n.a);
                        if y > mask(iw) { return self.constant(1, 1); }
                        let k = self.constant(y, iw); return self.bin(Ult, n.a, k);
                    }
                    if n.op == Ite && (self.cst(n.b).is_some() || self.cst(n.c).is_some()) {
                        let (x, z) = (self.bin(op, n.b, b), self.bin(op, n.c, b));
                        return self.ite(n.a, x, z);
                    }
                }
                if let Some(x) = ca {
                    // x < b  <=> !(b <= x)
                    let r = if op == Ult { Ule } else { Ult };
                    let t = self.bin(r, b, a);
                    let _ = x;
                    return self.not1(t);
                }
                if ca.is_none() && cb.is_none() {
                    let (na, nb) = (self.nd(a), self.nd(b));
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(op, na.a, nb.a); }
                }
            }
            Slt | Sle => {
                if a == b { return self.constant((op == Sle) as u128, 1); }
                let (na, nb) = (self.nd(a), self.nd(b));
                // zero-extended values are non-negative
                let nonneg = |d: &Dag, n: &Node, c: Option<u128>| match c { Some(v) => sx(v, wa) >= 0, None => n.op == ZExt && d.w(n.a) < wa };
                if nonneg(self, &na, ca) && nonneg(self, &nb, cb) { return self.bin(if op == Slt { Ult } else { Ule }, a, b); }
            }
            Concat => {
                if ca == Some(0) { return self.zext(b, w); }
                let (na, nb) = (self.nd(a), self.nd(b));
                if na.op == Extract && nb.op == Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
                    let hi = (na.k + na.w as u128 - 1) as u16;
                    return self.extract(hi, nb.k as u16, na.a);
                }
                // concat(extract(x,..), concat(extract(x, adjacent), y))
                if na.op == Extract && nb.op == Concat {
                    let nba = self.nd(nb.a);
                    if nba.op == Extract && nba.a == na.a && na.k == nba.k + nba.w as u128 {
                        let t = self.extract((na.k + na.w as u128 - 1) as u16, nba.k as u16, na.a);
                        return self.bin(Concat, t, nb.b);
                    }
                }
                if na.op == Extract && na.k as u16 == nb.w && na.a == b { /* fallthrough */ }
                // concat(extract(x, hi, k), x') where x' = extract-less low part of x
                if na.op == ZExt { let t = self.bin(Concat, na.a, b); return self.zext(t, w); }
            }
            _ => {}
        }
        self.intern(op, w, a, b, 0, 0)
    }
    pub fn extract(&mut self, hi: u16, lo: u16, a: E) -> E {
        let w = hi - lo + 1;
        let n = self.nd(a);
        if w == n.w { return a; }
        if n.op == Op::Const { return self.constant(n.k >> lo, w); }
        match n.op {
            Op::Extract => { return self.extract(hi + n.k as u16, lo + n.k as u16, n.a); }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.constant(0, w); }
                if hi < iw { return self.extract(hi, lo, n.a); }
                let x = self.extract(iw - 1, lo, n.a);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw { return self.extract(hi, lo, n.a); }
                if lo == 0 { return self.sext(n.a, w); }
                if lo < iw { let x = self.extract(iw - 1, lo, n.a); return self.sext(x, w); }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw { return self.extract(hi, lo, n.b); }
                if lo >= lw { return self.extract(hi - lw, lo - lw, n.a); }
                let (h, l) = (self.extract(hi - lw, 0, n.a), self.extract(lw - 1, lo, n.b));
                return self.bin(Op::Concat, h, l);
            }
            Op::Ite => {
                if self.cst(n.b).is_some() && self.cst(n.c).is_some() || w == 1 {
                    let (x, y) = (self.extract(hi, lo, n.b), self.extract(hi, lo, n.c));
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cst(n.b).is_some() || lo == 0 {
                    let (x, y) = (self.extract(hi, lo, n.a), self.extract(hi, lo, n.b));
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let (x, y) = (self.extract(hi, 0, n.a), self.extract(hi, 0, n.b));
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.nd(a);
        if n.w == w { return a; }
        if n.w > w { return self.extract(w - 1, 0, a); }
        if n.op == Op::Const { return self.constant(n.k, w); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.intern(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.nd(a);
        if n.w == w { return a; }
        if n.w > w { return self.extract(w - 1, 0, a); }
        if n.op == Op::Const { return self.constant(sx(n.k, n.w) as u128, w); }
        if n.op == Op::ZExt && self.w(n.a) < n.w { return self.zext(n.a, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        self.intern(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cst(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        } else if let (Some(1), Some(0)) = (self.cst(a), self.cst(b)) {
            return self.zext(c, w);
        }
        let nc = self.nd(c);
        if nc.op == Op::Xor && nc.w == 1 && self.cst(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        self.intern(Op::Ite, w, c, a, b, 0)
    }

    // ---------------------------------------------------------------- z3
    pub fn to_z3(&mut self, z: &mut Z3, e: E) -> Ast {
        if !self.z[e as usize].is_null() { return self.z[e as usize]; }
        let mut seen = HashMap::new();
        let mut order = vec![];
        // iterative: only nodes without a translation
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if x == 0 || !self.z[x as usize].is_null() || seen.contains_key(&x) { continue; }
            if done { seen.insert(x, ()); order.push(x); continue; }
            stack.push((x, true));
            let n = &self.n[x as usize];
            for k in [n.a, n.b, n.c] { if k != 0 { stack.push((k, false)); } }
        }
        for x in order {
            let n = self.n[x as usize];
            let (a, b, c) = (self.z[n.a as usize], self.z[n.b as usize], self.z[n.c as usize]);
            use Op::*;
            let r = match n.op {
                Const => z.num(n.k, n.w as u32),
                Var => { let nm = self.vars[n.k as usize].name.clone(); z.var(&nm, n.w as u32) }
                Add => z.bvadd(a, b), Sub => z.bvsub(a, b), Mul => z.bvmul(a, b), UDiv => z.bvudiv(a, b), URem => z.bvurem(a, b),
                SDiv => z.bvsdiv(a, b), SRem => z.bvsrem(a, b), And => z.bvand(a, b), Or => z.bvor(a, b), Xor => z.bvxor(a, b),
                Shl => z.bvshl(a, b), LShr => z.bvlshr(a, b), AShr => z.bvashr(a, b),
                Eq | Ult | Ule | Slt | Sle => {
                    let t = self.cmp_bool(z, n.op, a, b);
                    let (one, zero) = (z.num(1, 1), z.num(0, 1));
                    z.ite(t, one, zero)
                }
                Ite => { let t = self.to_bool(z, n.a); z.ite(t, b, c) }
                Concat => z.concat(a, b),
                Extract => z.extract((n.k as u32) + n.w as u32 - 1, n.k as u32, a),
                ZExt => z.zext((n.w - self.n[n.a as usize].w) as u32, a),
                SExt => z.sext((n.w - self.n[n.a as usize].w) as u32, a),
            };
            self.z[x as usize] = r;
        }
        self.z[e as usize]
    }
    fn cmp_bool(&self, z: &Z3, op: Op, a: Ast, b: Ast) -> Ast {
        match op { Op::Eq => z.eq(a, b), Op::Ult => z.ult(a, b), Op::Ule => z.ule(a, b), Op::Slt => z.slt(a, b), _ => z.sle(a, b) }
    }
    pub fn to_bool(&mut self, z: &mut Z3, e: E) -> Ast {
        let n = self.nd(e);
        match n.op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (a, b) = (self.to_z3(z, n.a), self.to_z3(z, n.b));
                self.cmp_bool(z, n.op, a, b)
            }
            Op::Xor if self.cst(n.b) == Some(1) => { let t = self.to_bool(z, n.a); z.not(t) }
            _ => { let a = self.to_z3(z, e); z.eq(a, z.one) }
        }
    }

    // ---------------------------------------------------------------- s-expressions from the scenario
    /// parses e.g. `(ite (ult x #x05) (extract 7 0 y) (bv 3 8))`
    pub fn parse_sexpr(&mut self, s: &str) -> Result<E, String> {
        let toks = tokenize(s);
        let mut pos = 0;
        let e = self.parse_tok(&toks, &mut pos)?;
        if pos != toks.len() { return Err(format!("trailing tokens in {}", s)); }
        Ok(e)
    }
    fn parse_tok(&mut self, t: &[String], p: &mut usize) -> Result<E, String> {
        let x = t.get(*p).ok_or("eof")?.clone();
        *p += 1;
        if x != "(" {
            for v in &self.vars { if v.name == x { return Ok(v.id); } }
            return Err(format!("unknown variable {}", x));
        }
        let head = t[*p].clone();
        *p += 1;
        let num = |p: &mut usize| -> Result<u128, String> { let v = t[*p].parse::<u128>().map_err(|e| e.to_string()); *p += 1; v };
        let r = match head.as_str() {
            "bv" => { let v = num(p)?; let w = num(p)?; self.constant(v, w as u16) }
            "extract" => { let h = num(p)?; let l = num(p)?; let a = self.parse_tok(t, p)?; self.extract(h as u16, l as u16, a) }
            "zext" => { let w = num(p)?; let a = self.parse_tok(t, p)?; self.zext(a, w as u16) }
            "sext" => { let w = num(p)?; let a = self.parse_tok(t, p)?; self.sext(a, w as u16) }
            "not" => { let a = self.parse_tok(t, p)?; let w = self.w(a); let m = self.constant(mask(w), w); self.bin(Op::Xor, a, m) }
            "ite" => { let c = self.parse_tok(t, p)?; let a = self.parse_tok(t, p)?; let b = self.parse_tok(t, p)?; self.ite(c, a, b) }
            o => {
                let op = op_by_name(o).ok_or(format!("unknown op {}", o))?;
                let mut acc = self.parse_tok(t, p)?;
                loop {
                    if t.get(*p).map(|s| s.as_str()) == Some(")") { break; }
                    let b = self.parse_tok(t, p)?;
                    acc = self.bin(op, acc, b);
                }
                acc
            }
        };
        if t.get(*p).map(|s| s.as_str()) != Some(")") { return Err(format!("expected ) at {} in {:?}", p, t)); }
        *p += 1;
        Ok(r)
    }
}

fn tokenize(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '(' || c == ')' || c.is_whitespace() {
            if !cur.is_empty() { out.push(std::mem::take(&mut cur)); }
            if !c.is_whitespace() { out.push(c.to_string()); }
        } else { cur.push(c); }
    }
    if !cur.is_empty() { out.push(cur); }
    out
}
