//! Guest memory: native addresses inside one big reserved region, with a shadow word
//! (expression id) per byte.  Lines of 64 bytes carry a flag so that purely concrete
//! accesses stay fast.
use crate::expr::E;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub const SIZE: u64 = 6 << 30;
pub const STACK: u64 = 1 << 30;

pub struct Mem {
    pub base: u64,
    shadow: *mut u32,
    flags: *mut u8,
    bump: u64,
    limit: u64,
    pub sp: u64,
    pub sp_max: u64,
    free: Vec<Vec<u64>>,
}

fn map(n: u64) -> u64 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), n as usize, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
    if p as isize == -1 { eprintln!("symx: mmap failed"); std::process::exit(3); }
    p as u64
}

impl Mem {
    pub fn new() -> Mem {
        let base = map(SIZE);
        let shadow = map(SIZE * 4) as *mut u32;
        let flags = map(SIZE / 64 + 64) as *mut u8;
        Mem { base, shadow, flags, bump: base + 4096, limit: base + SIZE - STACK, sp: base + SIZE - STACK, sp_max: base + SIZE - 4096, free: vec![vec![]; 64] }
    }
    #[inline(always)] pub fn has(&self, a: u64, n: u64) -> bool { a.wrapping_sub(self.base) <= SIZE - n.min(SIZE) }
    #[inline(always)] pub fn maybe_sym(&self, a: u64, n: u64) -> bool {
        let o = a.wrapping_sub(self.base);
        if n == 0 || o > SIZE - n { return false; }
        unsafe {
            if n <= 64 { *self.flags.add((o >> 6) as usize) | *self.flags.add(((o + n - 1) >> 6) as usize) != 0 }
            else { (o >> 6..=(o + n - 1) >> 6).any(|l| *self.flags.add(l as usize) != 0) }
        }
    }
    #[inline] pub fn sh(&self, a: u64) -> E { unsafe { *self.shadow.add((a - self.base) as usize) } }
    pub fn sym(&self, a: u64) -> E { if self.has(a, 1) && self.maybe_sym(a, 1) { self.sh(a) } else { 0 } }
    #[inline] pub fn set_sh(&self, a: u64, e: E) {
        let o = a - self.base;
        unsafe {
            *self.shadow.add(o as usize) = e;
            if e != 0 { *self.flags.add((o >> 6) as usize) = 1; }
        }
    }
    pub fn clear(&self, a: u64, n: u64) {
        if !self.has(a, n) || !self.maybe_sym(a, n) { return; }
        for i in 0..n { self.set_sh(a + i, 0); }
    }
    #[inline(always)] pub fn rd(&self, a: u64, n: u64) -> u64 {
        unsafe {
            match n {
                1 => *(a as *const u8) as u64,
                2 => (a as *const u16).read_unaligned() as u64,
                4 => (a as *const u32).read_unaligned() as u64,
                _ => (a as *const u64).read_unaligned(),
            }
        }
    }
    #[inline(always)] pub fn wr(&self, a: u64, n: u64, v: u64) {
        unsafe {
            match n {
                1 => *(a as *mut u8) = v as u8,
                2 => (a as *mut u16).write_unaligned(v as u16),
                4 => (a as *mut u32).write_unaligned(v as u32),
                _ => (a as *mut u64).write_unaligned(v),
            }
        }
    }
    pub fn copy(&self, d: u64, s: u64, n: u64) {
        if n == 0 { return; }
        unsafe { std::ptr::copy(s as *const u8, d as *mut u8, n as usize); }
        let ss = self.has(s, n) && self.maybe_sym(s, n);
        if !self.has(d, n) { return; }
        if ss {
            // respect overlap direction
            if d <= s { for i in 0..n { let e = self.sh(s + i); self.set_sh(d + i, e); } }
            else { for i in (0..n).rev() { let e = self.sh(s + i); self.set_sh(d + i, e); } }
        } else if self.maybe_sym(d, n) { for i in 0..n { self.set_sh(d + i, 0); } }
    }
    pub fn bytes(&self, a: u64, n: u64) -> &'static [u8] { unsafe { std::slice::from_raw_parts(a as *const u8, n as usize) } }
    pub fn cstr(&self, a: u64) -> Vec<u8> {
        let mut v = vec![];
        let mut p = a;
        loop { let b = self.rd(p, 1) as u8; if b == 0 { return v; } v.push(b); p += 1; }
    }

    // ---------------------------------------------------------------- allocation
    pub fn raw(&mut self, n: u64, align: u64) -> u64 {
        let a = (self.bump + align - 1) / align * align;
        self.bump = a + n;
        if self.bump > self.limit { eprintln!("symx: guest heap exhausted"); std::process::exit(3); }
        a
    }
    pub fn alloc(&mut self, n: u64, align: u64) -> u64 {
        let cls = 64 - (n.max(16) - 1).leading_zeros() as usize;
        let a = if align <= 16 { self.free[cls].pop() } else { None };
        let a = a.unwrap_or_else(|| self.raw((1u64 << cls) + 32, align.max(16)) );
        // layout: [raw .. hdr(16) .. data]; keep data aligned
        if align <= 16 {
            self.wr(a, 8, n);
            self.wr(a + 8, 8, cls as u64);
            self.clear(a, 16);
            a + 16
        } else {
            let b = self.raw((1u64 << cls) + 2 * align, align);
            let d = b + align;
            self.wr(d - 16, 8, n);
            self.wr(d - 8, 8, 0);
            d
        }
    }
    pub fn size_of(&self, a: u64) -> u64 { self.rd(a - 16, 8) }
    pub fn dealloc(&mut self, a: u64) {
        let cls = self.rd(a - 8, 8) as usize;
        if cls > 0 && cls < 40 { self.free[cls].push(a - 16); }
    }
    pub fn put(&mut self, b: &[u8]) -> u64 {
        let a = self.alloc(b.len() as u64 + 1, 16);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), a as *mut u8, b.len()); }
        self.clear(a, b.len() as u64 + 1);
        self.wr(a + b.len() as u64, 1, 0);
        a
    }
}
