//! Parser for the subset of textual LLVM IR that rustc emits for the program under test.
//! Functions are decoded lazily, on first call.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void, Int(u32), Ptr, Float, Double, Label, Metadata,
    Struct(Vec<TyId>, bool), Array(u64, TyId), Vector(u64, TyId),
    Func(TyId, Vec<TyId>, bool),
    Opaque,
}

pub const T_VOID: TyId = 0;
pub const T_I1: TyId = 1;
pub const T_I8: TyId = 2;
pub const T_I64: TyId = 3;
pub const T_PTR: TyId = 4;

pub struct Types { pub t: Vec<Ty>, map: HashMap<Ty, TyId>, pub sz: Vec<(u64, u64)>, pub offs: Vec<Rc<Vec<u64>>> }

impl Types {
    pub fn new() -> Types {
        let mut s = Types { t: vec![], map: HashMap::new(), sz: vec![], offs: vec![] };
        for x in [Ty::Void, Ty::Int(1), Ty::Int(8), Ty::Int(64), Ty::Ptr] { s.get(x); }
        s
    }
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) { return i; }
        let i = self.t.len() as TyId;
        let mut offs = vec![];
        let sz = match &t {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Opaque | Ty::Func(..) => (0, 1),
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let p = b.next_power_of_two().min(16);
                ((b + p - 1) / p * p, p)
            }
            Ty::Ptr => (8, 8), Ty::Float => (4, 4), Ty::Double => (8, 8),
            Ty::Struct(f, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                for &x in f {
                    let (s, a) = self.sz[x as usize];
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    offs.push(o);
                    o += s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
            Ty::Array(n, e) => { let (s, a) = self.sz[*e as usize]; (s * n, a) }
            Ty::Vector(n, e) => {
                let bits = match self.t[*e as usize] { Ty::Int(w) => w as u64, Ty::Float => 32, _ => 64 } * n;
                let b = ((bits + 7) / 8).max(1);
                let p = b.next_power_of_two();
                (p, p)
            }
        };
        self.t.push(t.clone());
        self.sz.push(sz);
        self.offs.push(Rc::new(offs));
        self.map.insert(t, i);
        i
    }
    pub fn size(&self, t: TyId) -> u64 { self.sz[t as usize].0 }
    /// width in bits of a scalar type
    pub fn width(&self, t: TyId) -> u16 {
        match self.t[t as usize] { Ty::Int(n) => n as u16, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, _ => 0 }
    }
    pub fn is_scalar(&self, t: TyId) -> bool { matches!(self.t[t as usize], Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double) }
}

/// run-time value
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum O { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, Bitcast, PtrToInt, IntToPtr, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, w: u16, d: u32, a: O, b: O },
    Icmp { p: Pred, w: u16, d: u32, a: O, b: O },
    VBin { op: BinOp, w: u16, d: u32, a: O, b: O },
    VIcmp { p: Pred, w: u16, d: u32, a: O, b: O },
    FBin { op: u8, ty: TyId, d: u32, a: O, b: O },
    Fcmp { p: Box<str>, ty: TyId, d: u32, a: O, b: O },
    Cast { op: CastOp, from: TyId, to: TyId, d: u32, a: O },
    Load { ty: TyId, n: u8, d: u32, a: O },
    Store { ty: TyId, n: u8, v: O, a: O },
    Gep { d: u32, base: O, off: i64, idx: Vec<(O, u16, i64)> },
    Select { ty: TyId, d: u32, c: O, a: O, b: O },
    Call { d: u32, ret: TyId, callee: O, args: Vec<O>, argt: Vec<TyId> },
    Asm { d: u32, ret: TyId, text: Box<str>, args: Vec<O> },
    Extract { d: u32, a: O, path: Vec<u32> },
    Insert { d: u32, a: O, v: O, path: Vec<u32> },
    ExtractEl { d: u32, a: O, i: O },
    InsertEl { d: u32, a: O, v: O, i: O },
    Shuffle { d: u32, a: O, b: O, m: Vec<u32> },
    Rmw { op: Box<str>, w: u16, d: u32, a: O, v: O },
    CmpXchg { w: u16, d: u32, a: O, c: O, n: O },
    Alloca { d: u32, size: u64, align: u64 },
    Mov { d: u32, a: O },
    Nop,
    Unsupported(Box<str>),
}

#[derive(Debug)]
pub enum Term {
    Br(u32),
    Cond(O, u32, u32),
    Switch { w: u16, v: O, def: u32, cases: Vec<(u64, u32)>, map: HashMap<u64, u32> },
    Ret(Option<O>),
    Unreachable,
    Unsupported(Box<str>),
}

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, O)>)>, pub insts: Vec<I>, pub term: Term }

#[derive(Debug)]
pub struct Body { pub nregs: u32, pub nargs: u32, pub blocks: Vec<Block> }

#[derive(Clone)]
pub struct Func { pub name: String, pub defined: bool, pub weak: bool, pub span: (usize, usize), pub head: (usize, usize), pub body: Option<Rc<Body>> }

pub struct Global { pub name: String, pub addr: u64, pub ty: TyId, pub span: (usize, usize), pub init: bool, pub section: String }

pub const FUNC_BASE: u64 = 0x0000_5a5a_0000_0000;

pub struct Module {
    pub src: &'static [u8],
    pub types: Types,
    pub named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

pub struct P<'a> { s: &'a [u8], i: usize }

fn is_word(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> P<'a> { P { s, i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) -> R<()> { if self.eat(c) { Ok(()) } else { self.err(&format!("expected `{}`", c as char)) } }
    fn err<T>(&self, m: &str) -> R<T> {
        let e = (self.i + 60).min(self.s.len());
        let b = self.i.min(self.s.len());
        Err(format!("{} at `{}`", m, String::from_utf8_lossy(&self.s[b..e])))
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[b..self.i]).unwrap_or("")
    }
    fn peek_word(&mut self) -> &'a str { let s = self.i; let w = self.word(); self.i = s; w }
    fn eat_word(&mut self, w: &str) -> bool { let s = self.i; if self.word() == w { true } else { self.i = s; false } }
    fn quoted(&mut self) -> R<Vec<u8>> {
        self.expect(b'"')?;
        let mut out = vec![];
        loop {
            let c = *self.s.get(self.i).ok_or("eof in string")?;
            self.i += 1;
            if c == b'"' { return Ok(out); }
            if c == b'\\' {
                if self.s[self.i] == b'\\' { out.push(b'\\'); self.i += 1; }
                else {
                    let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                    out.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                    self.i += 2;
                }
            } else { out.push(c); }
        }
    }
    /// name after a sigil: word or quoted string
    fn name(&mut self) -> R<String> {
        if self.i < self.s.len() && self.s[self.i] == b'"' { let q = self.quoted()?; return Ok(String::from_utf8_lossy(&q).into_owned()); }
        let w = self.word();
        if w.is_empty() { return self.err("expected name"); }
        Ok(w.to_string())
    }
    fn skip_parens(&mut self) -> R<()> {
        self.expect(b'(')?;
        let mut d = 1;
        while d > 0 {
            let c = *self.s.get(self.i).ok_or("eof in parens")?;
            match c { b'(' => d += 1, b')' => d -= 1, b'"' => { self.quoted()?; continue; } _ => {} }
            self.i += 1;
        }
        Ok(())
    }
    fn int(&mut self) -> R<i128> {
        self.ws();
        let w = self.word();
        w.parse::<i128>().map_err(|_| format!("bad integer `{}`", w))
    }
}

fn is_type_start(p: &mut P) -> bool {
    match p.peek() {
        b'{' | b'[' | b'<' | b'%' => true,
        _ => {
            let w = p.peek_word();
            matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" | "x86_fp80")
                || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
        }
    }
}

const VALUE_WORDS: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "splat", "sub", "add", "xor", "icmp", "ptrtoaddr", "addrspacecast", "blockaddress"];

/// skip parameter / return attributes until `stop` says so
fn skip_attrs(p: &mut P) -> R<()> {
    loop {
        let c = p.peek();
        if !(c.is_ascii_alphabetic() || c == b'_' || c == b'"' || c == b'#') { return Ok(()); }
        if c == b'"' { p.quoted()?; if p.eat(b'=') { p.quoted()?; } continue; }
        if c == b'#' { p.i += 1; p.word(); continue; }
        if is_type_start(p) { return Ok(()); }
        let w = p.peek_word();
        if VALUE_WORDS.contains(&w) { return Ok(()); }
        if w == "c" && p.s.get(p.i + 1) == Some(&b'"') { return Ok(()); }
        if w == "asm" { return Ok(()); }
        if matches!(w, "to" | "unwind") { return Ok(()); }
        p.word();
        if w == "align" { if p.peek() == b'(' { p.skip_parens()?; } else { p.word(); } continue; }
        // attribute with parenthesised argument directly attached
        if p.i < p.s.len() && p.s[p.i] == b'(' { p.skip_parens()?; }
    }
}

pub struct Ctx<'m> { pub m: &'m mut Module, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, nregs: u32 }

impl Module {
    pub fn parse_type(&mut self, p: &mut P) -> R<TyId> {
        let c = p.peek();
        let mut t = match c {
            b'{' => { p.i += 1; let f = self.type_list(p, b'}')?; self.types.get(Ty::Struct(f, false)) }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let f = self.type_list(p, b'}')?;
                    p.expect(b'>')?;
                    self.types.get(Ty::Struct(f, true))
                } else {
                    let n = p.int()? as u64;
                    if !p.eat_word("x") { return p.err("expected x"); }
                    let e = self.parse_type(p)?;
                    p.expect(b'>')?;
                    self.types.get(Ty::Vector(n, e))
                }
            }
            b'[' => {
                p.i += 1;
                let n = p.int()? as u64;
                if !p.eat_word("x") { return p.err("expected x"); }
                let e = self.parse_type(p)?;
                p.expect(b']')?;
                self.types.get(Ty::Array(n, e))
            }
            b'%' => { p.i += 1; let n = p.name()?; *self.named.get(&n).ok_or(format!("unknown type {}", n))? }
            _ => {
                let w = p.word();
                match w {
                    "void" => T_VOID, "ptr" => T_PTR,
                    "float" => self.types.get(Ty::Float), "double" => self.types.get(Ty::Double),
                    "label" => self.types.get(Ty::Label), "metadata" => self.types.get(Ty::Metadata),
                    _ if w.starts_with('i') && w.len() > 1 => {
                        let n = w[1..].parse::<u32>().map_err(|_| format!("bad type {}", w))?;
                        self.types.get(Ty::Int(n))
                    }
                    _ => return p.err(&format!("bad type `{}`", w)),
                }
            }
        };
        // function type
        if p.peek() == b'(' {
            p.i += 1;
            let mut a = vec![];
            let mut va = false;
            if !p.eat(b')') {
                loop {
                    if p.peek() == b'.' { p.i += 3; va = true; } else { a.push(self.parse_type(p)?); }
                    if !p.eat(b',') { break; }
                }
                p.expect(b')')?;
            }
            t = self.types.get(Ty::Func(t, a, va));
        }
        Ok(t)
    }
    fn type_list(&mut self, p: &mut P, end: u8) -> R<Vec<TyId>> {
        let mut f = vec![];
        if p.eat(end) { return Ok(f); }
        loop { f.push(self.parse_type(p)?); if !p.eat(b',') { break; } }
        p.expect(end)?;
        Ok(f)
    }

    /// zero value of a type
    pub fn zero(&self, t: TyId) -> V {
        match &self.types.t[t as usize] {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|&x| self.zero(x)).collect())),
            Ty::Array(n, e) => V::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            Ty::Vector(n, e) => V::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            _ => V::C(0),
        }
    }
    pub fn func_addr(&self, i: u32) -> u64 { FUNC_BASE + 16 * i as u64 }
    fn symbol(&self, n: &str) -> R<u64> {
        if let Some(&g) = self.gmap.get(n) { return Ok(self.globals[g as usize].addr); }
        if let Some(&f) = self.fmap.get(n) { if self.funcs[f as usize].weak { return Ok(0); } return Ok(self.func_addr(f)); }
        Err(format!("unknown symbol @{}", n))
    }
    fn lit(&self, v: i128, w: u32) -> V {
        let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        let u = (v as u128) & m;
        if w > 64 { V::W(Rc::new(u)) } else { V::C(u as u64) }
    }

    /// constant of type `t`
    pub fn parse_const(&mut self, p: &mut P, t: TyId) -> R<V> {
        let c = p.peek();
        let ty = self.types.t[t as usize].clone();
        match c {
            b'@' => { p.i += 1; let n = p.name()?; return Ok(V::C(self.symbol(&n)?)); }
            b'{' | b'[' | b'<' => {
                let (close, close2) = match c { b'{' => (b'}', 0), b'[' => (b']', 0), _ => if p.s[p.i + 1] == b'{' { p.i += 1; (b'}', b'>') } else { (b'>', 0) } };
                p.i += 1;
                let mut v = vec![];
                if !p.eat(close) {
                    loop { let et = self.parse_type(p)?; v.push(self.parse_const(p, et)?); if !p.eat(b',') { break; } }
                    p.expect(close)?;
                }
                if close2 != 0 { p.expect(close2)?; }
                return Ok(V::A(Rc::new(v)));
            }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 1;
                let q = p.quoted()?;
                return Ok(V::A(Rc::new(q.into_iter().map(|b| V::C(b as u64)).collect())));
            }
            _ => {}
        }
        let w = p.word();
        Ok(match w {
            "true" => V::C(1), "false" => V::C(0), "null" | "none" => V::C(0),
            "undef" | "poison" | "zeroinitializer" => {
                if self.types.width(t) > 64 { V::W(Rc::new(0)) } else { self.zero(t) }
            }
            "splat" => {
                p.expect(b'(')?;
                let et = self.parse_type(p)?;
                let v = self.parse_const(p, et)?;
                p.expect(b')')?;
                let n = match ty { Ty::Vector(n, _) => n, Ty::Array(n, _) => n, _ => return p.err("splat of non vector") };
                V::A(Rc::new(vec![v; n as usize]))
            }
            "getelementptr" => {
                while p.peek() != b'(' { p.word(); if p.peek() == b'(' && self.maybe_inrange(p) { continue; } }
                p.expect(b'(')?;
                let st = self.parse_type(p)?;
                p.expect(b',')?;
                let bt = self.parse_type(p)?;
                let b = self.parse_const(p, bt)?;
                let mut addr = match b { V::C(x) => x as i64, _ => return p.err("gep base") };
                let mut cur = st;
                let mut first = true;
                while p.eat(b',') {
                    let it = self.parse_type(p)?;
                    let iv = self.parse_const(p, it)?;
                    let w = self.types.width(it);
                    let k = match iv { V::C(x) => sext64(x, w), _ => return p.err("gep idx") };
                    let (o, n) = self.gep_step(cur, first, k)?;
                    addr = addr.wrapping_add(o);
                    cur = n;
                    first = false;
                }
                p.expect(b')')?;
                V::C(addr as u64)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                p.expect(b'(')?;
                let ft = self.parse_type(p)?;
                let v = self.parse_const(p, ft)?;
                if !p.eat_word("to") { return p.err("expected to"); }
                let tt = self.parse_type(p)?;
                p.expect(b')')?;
                match v { V::C(x) => { let w = self.types.width(tt); V::C(if w < 64 { x & ((1 << w) - 1) } else { x }) } o => o }
            }
            "sub" | "add" | "xor" => {
                while p.peek() != b'(' { p.word(); }
                p.expect(b'(')?;
                let at = self.parse_type(p)?;
                let a = self.parse_const(p, at)?;
                p.expect(b',')?;
                let bt = self.parse_type(p)?;
                let b = self.parse_const(p, bt)?;
                p.expect(b')')?;
                match (a, b) {
                    (V::C(a), V::C(b)) => {
                        let wd = self.types.width(at);
                        let m = if wd >= 64 { u64::MAX } else { (1 << wd) - 1 };
                        V::C(m & match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b })
                    }
                    _ => return p.err("const expr"),
                }
            }
            _ => {
                match ty {
                    Ty::Float | Ty::Double => {
                        let d = if let Some(h) = w.strip_prefix("0x").or(w.strip_prefix("f0x").filter(|h| h.len() == 16)) { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) }
                        else if let Some(h) = w.strip_prefix("f0x").filter(|h| h.len() == 8) { f32::from_bits(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?) as f64 }
                        else {
                            // the word may have stopped at '+'
                            let mut s = w.to_string();
                            if p.i < p.s.len() && p.s[p.i] == b'+' { p.i += 1; s.push('+'); s.push_str(p.word()); }
                            s.parse::<f64>().map_err(|_| format!("bad float `{}`", s))?
                        };
                        if ty == Ty::Float { V::C((d as f32).to_bits() as u64) } else { V::C(d.to_bits()) }
                    }
                    Ty::Int(n) => {
                        let v = w.parse::<i128>().or_else(|_| w.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("bad constant `{}` of i{}", w, n))?;
                        self.lit(v, n)
                    }
                    _ => return p.err(&format!("bad constant `{}` of {:?}", w, ty)),
                }
            }
        })
    }
    fn maybe_inrange(&mut self, p: &mut P) -> bool {
        // `inrange(a, b)` right after getelementptr flags: the previous word was `inrange`
        let s = &p.s[..p.i];
        if s.ends_with(b"inrange") { let _ = p.skip_parens(); true } else { false }
    }
    fn gep_step(&mut self, cur: TyId, first: bool, k: i64) -> R<(i64, TyId)> {
        if first { return Ok((k.wrapping_mul(self.types.size(cur) as i64), cur)); }
        match &self.types.t[cur as usize] {
            Ty::Struct(f, _) => { let n = f[k as usize]; Ok((self.types.offs[cur as usize][k as usize] as i64, n)) }
            Ty::Array(_, e) | Ty::Vector(_, e) => Ok((k.wrapping_mul(self.types.size(*e) as i64), *e)),
            t => Err(format!("gep into {:?}", t)),
        }
    }

    /// first pass over the module text
    pub fn load(src: &'static [u8], mut alloc: impl FnMut(u64, u64) -> u64) -> R<Module> {
        let mut m = Module { src, types: Types::new(), named: HashMap::new(), funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new() };
        let mut i = 0;
        let n = src.len();
        let nl = |i: usize| -> usize { match memchr(b'\n', &src[i..]) { Some(k) => i + k, None => n } };
        let mut aliases = vec![];
        while i < n {
            let e = nl(i);
            let line = &src[i..e];
            if line.is_empty() { i = e + 1; continue; }
            match line[0] {
                b'@' => {
                    let mut p = P::new(line);
                    p.i = 1;
                    let name = p.name()?;
                    p.expect(b'=')?;
                    let mut external = false;
                    let mut is_alias = false;
                    loop {
                        let w = p.word();
                        match w {
                            "global" | "constant" => break,
                            "alias" => { is_alias = true; break; }
                            "external" | "extern_weak" => external = true,
                            "" => return p.err("global"),
                            _ => { if p.peek() == b'(' { p.skip_parens()?; } }
                        }
                    }
                    let t = m.parse_type(&mut p)?;
                    if is_alias {
                        p.expect(b',')?;
                        m.parse_type(&mut p)?;
                        p.expect(b'@')?;
                        let target = p.name()?;
                        aliases.push((name, target));
                        i = e + 1;
                        continue;
                    }
                    let istart = i + p.i;
                    let size = m.types.size(t).max(1);
                    let addr = alloc(size, 16);
                    let section = match find(line, b", section \"") { Some(k) => { let r = &line[k + 11..]; String::from_utf8_lossy(&r[..memchr(b'"', r).unwrap_or(0)]).into_owned() } None => String::new() };
                    m.gmap.insert(name.clone(), m.globals.len() as u32);
                    m.globals.push(Global { name, addr, ty: t, span: (istart, e), init: !external, section });
                }
                b'%' => {
                    let mut p = P::new(line);
                    p.i = 1;
                    let name = p.name()?;
                    p.expect(b'=')?;
                    if p.eat_word("type") {
                        let t = if p.eat_word("opaque") { m.types.get(Ty::Opaque) } else { m.parse_type(&mut p)? };
                        m.named.insert(name, t);
                    }
                }
                b'd' if line.starts_with(b"define") || line.starts_with(b"declare") => {
                    let defined = line.starts_with(b"define");
                    let at = memchr(b'@', line).ok_or("no name")?;
                    let mut p = P::new(line);
                    p.i = at + 1;
                    let name = p.name()?;
                    let weak = !defined && find(&line[..at], b"extern_weak").is_some();
                    let head = (i + p.i, e);
                    let mut end = e;
                    if defined {
                        // body until a line that is exactly "}"
                        let mut k = e + 1;
                        loop {
                            let ke = nl(k);
                            if &src[k..ke] == b"}" { end = k; i = ke; break; }
                            k = ke + 1;
                            if k >= n { return Err("unterminated function".into()); }
                        }
                    }
                    m.fmap.insert(name.clone(), m.funcs.len() as u32);
                    m.funcs.push(Func { name, defined, weak, span: (e + 1, end), head, body: None });
                    if defined { i += 1; continue; }
                }
                _ => {}
            }
            i = e + 1;
        }
        for (a, t) in aliases {
            if let Some(&f) = m.fmap.get(&t) { m.fmap.insert(a, f); }
            else if let Some(&g) = m.gmap.get(&t) { m.gmap.insert(a, g); }
            else { return Err(format!("alias {} to unknown {}", a, t)); }
        }
        Ok(m)
    }

    pub fn global_init(&mut self, gi: usize) -> R<V> {
        let (t, (b, e)) = (self.globals[gi].ty, self.globals[gi].span);
        let src = self.src;
        let mut p = P::new(&src[b..e]);
        self.parse_const(&mut p, t).map_err(|x| format!("global {}: {}", self.globals[gi].name, x))
    }

    pub fn body(&mut self, f: u32) -> R<Rc<Body>> {
        if let Some(b) = &self.funcs[f as usize].body { return Ok(b.clone()); }
        let name = self.funcs[f as usize].name.clone();
        let b = Rc::new(self.decode(f).map_err(|e| format!("decoding {}: {}", name, e))?);
        self.funcs[f as usize].body = Some(b.clone());
        Ok(b)
    }

    fn decode(&mut self, f: u32) -> R<Body> {
        let src = self.src;
        let (hb, he) = self.funcs[f as usize].head;
        let (bb, be) = self.funcs[f as usize].span;
        let mut c = Ctx { m: self, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
        // parameters
        let mut p = P::new(&src[hb..he]);
        p.expect(b'(')?;
        let mut unnamed = 0u32;
        let mut nargs = 0;
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' { p.i += 3; break; }
                c.m.parse_type(&mut p)?;
                skip_attrs(&mut p)?;
                let nm = if p.eat(b'%') { p.name()? } else { let s = unnamed.to_string(); s };
                if nm.parse::<u32>().is_ok() { unnamed += 1; }
                c.def(&nm);
                nargs += 1;
                if !p.eat(b',') { break; }
            }
        }
        // pass 1: blocks and registers
        let text = &src[bb..be];
        let mut lines: Vec<&[u8]> = vec![];
        // join multi-line instructions (switch tables, landingpad clauses, invoke targets)
        let mut k = 0;
        while k < text.len() {
            let mut e = k + memchr(b'\n', &text[k..]).unwrap_or(text.len() - k);
            let l = &text[k..e];
            if l.starts_with(b"  ;") || l.starts_with(b";") {
            } else if l.ends_with(b"[") && find(l, b"switch ").is_some() {
                let q = find(&text[e..], b"\n  ]").ok_or("unterminated switch")?;
                e = e + q + 4;
                e += memchr(b'\n', &text[e..]).unwrap_or(text.len() - e);
            } else if find(l, b"= invoke ").is_some() || l.starts_with(b"  invoke ") {
                e = e + 1;
                e += memchr(b'\n', &text[e..]).unwrap_or(text.len() - e);
            } else if find(l, b"= landingpad ").is_some() {
                loop {
                    if e + 1 >= text.len() { break; }
                    let ne = e + 1 + memchr(b'\n', &text[e + 1..]).unwrap_or(text.len() - e - 1);
                    let nlne = &text[e + 1..ne];
                    if nlne.starts_with(b"          ") { e = ne; } else { break; }
                }
            }
            lines.push(&text[k..e]);
            k = e + 1;
        }
        let mut cur_started = false;
        let mut nblocks = 0;
        for l in &lines {
            if l.is_empty() { continue; }
            if l[0] != b' ' && l[0] != b';' {
                // label
                let mut p = P::new(l);
                let nm = p.name()?;
                c.blocks.insert(nm, nblocks);
                nblocks += 1;
                cur_started = true;
                continue;
            }
            let mut p = P::new(l);
            let ch = p.peek();
            if ch == b';' || ch == b'#' || ch == 0 { continue; }
            if !cur_started {
                c.blocks.insert(unnamed.to_string(), nblocks);
                nblocks += 1;
                cur_started = true;
            }
            if ch == b'%' {
                p.i += 1;
                let nm = p.name()?;
                c.def(&nm);
            }
        }
        // pass 2
        let mut blocks: Vec<Block> = vec![];
        let mut open = false;
        for l in &lines {
            if l.is_empty() { continue; }
            if l[0] != b' ' && l[0] != b';' {
                blocks.push(Block { phis: vec![], insts: vec![], term: Term::Unreachable });
                open = true;
                continue;
            }
            let mut p = P::new(l);
            let ch = p.peek();
            if ch == b';' || ch == b'#' || ch == 0 { continue; }
            if !open { blocks.push(Block { phis: vec![], insts: vec![], term: Term::Unreachable }); open = true; }
            let b = blocks.last_mut().unwrap();
            if let Err(e) = c.inst(&mut p, b) {
                let s = format!("{}: {}", e, String::from_utf8_lossy(l)).into_boxed_str();
                let t = String::from_utf8_lossy(l).into_owned();
                let tt = t.trim_start();
                if tt.starts_with("br ") || tt.starts_with("switch ") || tt.starts_with("ret ") || tt.starts_with("resume") || tt.starts_with("indirectbr") || tt.contains("invoke ") {
                    b.term = Term::Unsupported(s);
                } else { b.insts.push(I::Unsupported(s)); }
            }
        }
        Ok(Body { nregs: c.nregs, nargs, blocks })
    }
}

pub fn sext64(v: u64, w: u16) -> i64 { if w >= 64 || w == 0 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl<'m> Ctx<'m> {
    fn def(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn reg(&mut self, n: &str) -> R<u32> { self.regs.get(n).copied().ok_or(format!("unknown register %{}", n)) }
    fn block(&mut self, p: &mut P) -> R<u32> {
        if !p.eat_word("label") { return p.err("expected label"); }
        p.expect(b'%')?;
        let n = p.name()?;
        self.blocks.get(&n).copied().ok_or(format!("unknown block {}", n))
    }
    fn val(&mut self, p: &mut P, t: TyId) -> R<O> {
        if p.peek() == b'%' { p.i += 1; let n = p.name()?; return Ok(O::R(self.reg(&n)?)); }
        Ok(O::K(self.m.parse_const(p, t)?))
    }
    fn tval(&mut self, p: &mut P) -> R<(TyId, O)> { let t = self.m.parse_type(p)?; let v = self.val(p, t)?; Ok((t, v)) }

    fn inst(&mut self, p: &mut P, b: &mut Block) -> R<()> {
        let mut d = u32::MAX;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name()?;
            d = self.reg(&n)?;
            p.expect(b'=')?;
        }
        let mut op = p.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = p.word(); }
        match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                use BinOp::*;
                let o = match op { "add" => Add, "sub" => Sub, "mul" => Mul, "udiv" => UDiv, "urem" => URem, "sdiv" => SDiv, "srem" => SRem, "and" => And, "or" => Or, "xor" => Xor, "shl" => Shl, "lshr" => LShr, _ => AShr };
                while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") { p.word(); }
                let t = self.m.parse_type(p)?;
                let a = self.val(p, t)?;
                p.expect(b',')?;
                let c = self.val(p, t)?;
                if let Ty::Vector(_, e) = self.m.types.t[t as usize] { b.insts.push(I::VBin { op: o, w: self.m.types.width(e), d, a, b: c }); }
                else { b.insts.push(I::Bin { op: o, w: self.m.types.width(t), d, a, b: c }); }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                while !is_type_start(p) { p.word(); }
                let t = self.m.parse_type(p)?;
                let a = self.val(p, t)?;
                let c = if op == "fneg" { O::K(V::C(0)) } else { p.expect(b',')?; self.val(p, t)? };
                let o = match op { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, "fneg" => 4, _ => 5 };
                b.insts.push(I::FBin { op: o, ty: t, d, a, b: c });
            }
            "icmp" => {
                if p.peek_word() == "samesign" { p.word(); }
                use Pred::*;
                let pr = match p.word() { "eq" => Eq, "ne" => Ne, "ult" => Ult, "ule" => Ule, "ugt" => Ugt, "uge" => Uge, "slt" => Slt, "sle" => Sle, "sgt" => Sgt, "sge" => Sge, x => return Err(format!("icmp {}", x)) };
                let t = self.m.parse_type(p)?;
                let a = self.val(p, t)?;
                p.expect(b',')?;
                let c = self.val(p, t)?;
                if let Ty::Vector(_, e) = self.m.types.t[t as usize] { b.insts.push(I::VIcmp { p: pr, w: self.m.types.width(e), d, a, b: c }); }
                else { b.insts.push(I::Icmp { p: pr, w: self.m.types.width(t), d, a, b: c }); }
            }
            "fcmp" => {
                let pr = p.word().to_string();
                let t = self.m.parse_type(p)?;
                let a = self.val(p, t)?;
                p.expect(b',')?;
                let c = self.val(p, t)?;
                b.insts.push(I::Fcmp { p: pr.into(), ty: t, d, a, b: c });
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                use CastOp::*;
                let o = match op { "trunc" => Trunc, "zext" => ZExt, "sext" => SExt, "bitcast" | "addrspacecast" => Bitcast, "ptrtoint" | "ptrtoaddr" => PtrToInt, "inttoptr" => IntToPtr, "uitofp" => UiToFp, "sitofp" => SiToFp, "fptoui" => FpToUi, "fptosi" => FpToSi, "fpext" => FpExt, _ => FpTrunc };
                while matches!(p.peek_word(), "nuw" | "nsw" | "nneg") { p.word(); }
                let (from, a) = self.tval(p)?;
                if !p.eat_word("to") { return p.err("expected to"); }
                let to = self.m.parse_type(p)?;
                b.insts.push(I::Cast { op: o, from, to, d, a });
            }
            "freeze" => { let (_, a) = self.tval(p)?; b.insts.push(I::Mov { d, a }); }
            "load" => {
                if p.peek_word() == "atomic" { p.word(); }
                if p.peek_word() == "volatile" { p.word(); }
                let t = self.m.parse_type(p)?;
                p.expect(b',')?;
                let (_, a) = self.tval(p)?;
                b.insts.push(I::Load { ty: t, n: self.scalar_bytes(t), d, a });
            }
            "store" => {
                if p.peek_word() == "atomic" { p.word(); }
                if p.peek_word() == "volatile" { p.word(); }
                let (t, v) = self.tval(p)?;
                p.expect(b',')?;
                let (_, a) = self.tval(p)?;
                b.insts.push(I::Store { ty: t, n: self.scalar_bytes(t), v, a });
            }
            "getelementptr" => {
                while !is_type_start(p) { p.word(); if p.peek() == b'(' { p.skip_parens()?; } }
                let st = self.m.parse_type(p)?;
                p.expect(b',')?;
                let (_, base) = self.tval(p)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = st;
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    let (it, iv) = self.tval(p)?;
                    let w = self.m.types.width(it);
                    match iv {
                        O::K(V::C(x)) => { let (o, n) = self.m.gep_step(cur, first, sext64(x, w))?; off = off.wrapping_add(o); cur = n; }
                        v => {
                            let (scale, n) = if first { (self.m.types.size(cur) as i64, cur) } else {
                                match &self.m.types.t[cur as usize] { Ty::Array(_, e) | Ty::Vector(_, e) => (self.m.types.size(*e) as i64, *e), _ => return p.err("gep struct idx") }
                            };
                            idx.push((v, w, scale));
                            cur = n;
                        }
                    }
                    first = false;
                }
                b.insts.push(I::Gep { d, base, off, idx });
            }
            "select" => {
                while matches!(p.peek_word(), "nnan" | "ninf" | "nsz" | "fast") { p.word(); }
                let (ct, c) = self.tval(p)?;
                p.expect(b',')?;
                let (t, a) = self.tval(p)?;
                p.expect(b',')?;
                let (_, e) = self.tval(p)?;
                if self.m.types.is_scalar(ct) { b.insts.push(I::Select { ty: t, d, c, a, b: e }); }
                else { return p.err("vector select"); }
            }
            "phi" => {
                let t = self.m.parse_type(p)?;
                let mut v = vec![];
                loop {
                    p.expect(b'[')?;
                    let x = self.val(p, t)?;
                    p.expect(b',')?;
                    p.expect(b'%')?;
                    let n = p.name()?;
                    let bl = self.blocks.get(&n).copied().ok_or(format!("unknown block {}", n))?;
                    p.expect(b']')?;
                    v.push((bl, x));
                    if !p.eat(b',') { break; }
                    if p.peek() == b'!' { break; }
                }
                b.phis.push((d, v));
            }
            "call" | "invoke" => self.call(p, b, d, op == "invoke")?,
            "extractvalue" => {
                let (_, a) = self.tval(p)?;
                let mut path = vec![];
                while p.eat(b',') { if p.peek() == b'!' { break; } path.push(p.int()? as u32); }
                b.insts.push(I::Extract { d, a, path });
            }
            "insertvalue" => {
                let (_, a) = self.tval(p)?;
                p.expect(b',')?;
                let (_, v) = self.tval(p)?;
                let mut path = vec![];
                while p.eat(b',') { if p.peek() == b'!' { break; } path.push(p.int()? as u32); }
                b.insts.push(I::Insert { d, a, v, path });
            }
            "extractelement" => {
                let (_, a) = self.tval(p)?;
                p.expect(b',')?;
                let (_, i) = self.tval(p)?;
                b.insts.push(I::ExtractEl { d, a, i });
            }
            "insertelement" => {
                let (_, a) = self.tval(p)?;
                p.expect(b',')?;
                let (_, v) = self.tval(p)?;
                p.expect(b',')?;
                let (_, i) = self.tval(p)?;
                b.insts.push(I::InsertEl { d, a, v, i });
            }
            "shufflevector" => {
                let (_, a) = self.tval(p)?;
                p.expect(b',')?;
                let (_, c) = self.tval(p)?;
                p.expect(b',')?;
                let (_, m) = self.tval(p)?;
                let m = match m { O::K(V::A(v)) => v.iter().map(|x| if let V::C(k) = x { *k as u32 } else { 0 }).collect(), _ => return p.err("shuffle mask") };
                b.insts.push(I::Shuffle { d, a, b: c, m });
            }
            "atomicrmw" => {
                if p.peek_word() == "volatile" { p.word(); }
                let o = p.word().to_string();
                let (_, a) = self.tval(p)?;
                p.expect(b',')?;
                let (t, v) = self.tval(p)?;
                b.insts.push(I::Rmw { op: o.into(), w: self.m.types.width(t), d, a, v });
            }
            "cmpxchg" => {
                while matches!(p.peek_word(), "weak" | "volatile") { p.word(); }
                let (_, a) = self.tval(p)?;
                p.expect(b',')?;
                let (t, c) = self.tval(p)?;
                p.expect(b',')?;
                let (_, n) = self.tval(p)?;
                b.insts.push(I::CmpXchg { w: self.m.types.width(t), d, a, c, n });
            }
            "fence" => {}
            "alloca" => {
                if p.peek_word() == "inalloca" { p.word(); }
                let t = self.m.parse_type(p)?;
                let size = self.m.types.size(t);
                let mut align = 16;
                let mut count = 1;
                while p.eat(b',') {
                    if p.eat_word("align") { align = p.int()? as u64; }
                    else if p.peek() == b'!' { break; }
                    else { let (_, n) = self.tval(p)?; match n { O::K(V::C(k)) => count = k, _ => return p.err("dynamic alloca") } }
                }
                b.insts.push(I::Alloca { d, size: (size * count).max(1), align: align.max(1) });
            }
            "landingpad" => b.insts.push(I::Unsupported("landingpad reached".into())),
            // terminators
            "br" => {
                if p.peek_word() == "label" { b.term = Term::Br(self.block(p)?); }
                else {
                    let (_, c) = self.tval(p)?;
                    p.expect(b',')?;
                    let t = self.block(p)?;
                    p.expect(b',')?;
                    let e = self.block(p)?;
                    b.term = Term::Cond(c, t, e);
                }
            }
            "switch" => {
                let (t, v) = self.tval(p)?;
                p.expect(b',')?;
                let def = self.block(p)?;
                p.expect(b'[')?;
                let mut cases = vec![];
                let mut map = HashMap::new();
                while !p.eat(b']') {
                    let ct = self.m.parse_type(p)?;
                    let k = match self.m.parse_const(p, ct)? { V::C(x) => x, _ => return p.err("wide switch") };
                    p.expect(b',')?;
                    let bl = self.block(p)?;
                    cases.push((k, bl));
                    map.insert(k, bl);
                }
                b.term = Term::Switch { w: self.m.types.width(t), v, def, cases, map };
            }
            "ret" => {
                let t = self.m.parse_type(p)?;
                b.term = if t == T_VOID { Term::Ret(None) } else { Term::Ret(Some(self.val(p, t)?)) };
            }
            "unreachable" => b.term = Term::Unreachable,
            "resume" => b.term = Term::Unsupported("resume".into()),
            _ => return Err(format!("unknown instruction `{}`", op)),
        }
        Ok(())
    }
    fn scalar_bytes(&self, t: TyId) -> u8 {
        match self.m.types.t[t as usize] {
            Ty::Int(1) | Ty::Int(8) => 1, Ty::Int(16) => 2, Ty::Int(32) | Ty::Float => 4, Ty::Int(64) | Ty::Ptr | Ty::Double => 8,
            _ => 0,
        }
    }
    fn call(&mut self, p: &mut P, b: &mut Block, d: u32, invoke: bool) -> R<()> {
        skip_attrs(p)?;
        let mut ret = self.m.parse_type(p)?;
        if let Ty::Func(r, _, _) = self.m.types.t[ret as usize] { ret = r; }
        skip_attrs(p)?;
        let mut asm_text = None;
        let callee = if p.peek_word() == "asm" {
            p.word();
            while p.peek() != b'"' { p.word(); }
            let t = p.quoted()?;
            p.expect(b',')?;
            p.quoted()?;
            asm_text = Some(String::from_utf8_lossy(&t).into_owned());
            O::K(V::C(0))
        } else if p.peek() == b'@' {
            p.i += 1;
            let n = p.name()?;
            match self.m.fmap.get(&n) {
                Some(&f) => O::K(V::C(self.m.func_addr(f))),
                None => O::K(V::C(self.m.symbol(&n)?)),
            }
        } else { self.val(p, T_PTR)? };
        p.expect(b'(')?;
        let (mut args, mut argt) = (vec![], vec![]);
        if !p.eat(b')') {
            loop {
                let t = self.m.parse_type(p)?;
                if self.m.types.t[t as usize] == Ty::Metadata {
                    // skip to the matching , or )
                    let mut depth = 0;
                    while let Some(&c) = p.s.get(p.i) {
                        if c == b'(' { depth += 1; }
                        if c == b')' { if depth == 0 { break; } depth -= 1; }
                        if c == b',' && depth == 0 { break; }
                        p.i += 1;
                    }
                    args.push(O::K(V::C(0)));
                } else {
                    skip_attrs(p)?;
                    args.push(self.val(p, t)?);
                }
                argt.push(t);
                if !p.eat(b',') { break; }
            }
            p.expect(b')')?;
        }
        match asm_text {
            Some(t) => b.insts.push(I::Asm { d, ret, text: t.into(), args }),
            None => b.insts.push(I::Call { d, ret, callee, args, argt }),
        }
        if invoke {
            let k = find(&p.s[p.i..], b"to label %").ok_or("invoke target")?;
            p.i += k + 3;
            let bl = self.block(p)?;
            b.term = Term::Br(bl);
        }
        Ok(())
    }
}

pub fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    extern "C" { fn memchr(s: *const u8, c: i32, n: usize) -> *const u8; }
    let r = unsafe { memchr(s.as_ptr(), c as i32, s.len()) };
    if r.is_null() { None } else { Some(r as usize - s.as_ptr() as usize) }
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + n.len() <= h.len() {
        match memchr(n[0], &h[i..]) {
            None => return None,
            Some(k) => { i += k; if h[i..].starts_with(n) { return Some(i); } i += 1; }
        }
    }
    None
}
