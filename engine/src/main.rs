//! symx SCENARIO : symbolically execute the program under test (LLVM IR) in a described environment.
mod exec;
mod expr;
mod ir;
mod libc;
mod mem;
mod record;
mod z3;

use exec::{Ex, Shared};
use ir::{Module, V};
use std::os::fd::IntoRawFd;

extern "C" { fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } else { o.push(b[i]); i += 1; }
    }
    o
}
fn ustr(s: &str) -> String { String::from_utf8(unescape(s)).unwrap() }

fn main() {
    let t = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let _ = t.join();
    std::process::exit(0);
}

fn die(m: &str) -> ! { eprintln!("symx: {}", m); std::process::exit(3) }

fn real_main() {
    let path = std::env::args().nth(1).unwrap_or_else(|| die("usage: symx SCENARIO"));
    let text = std::fs::read_to_string(&path).unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
    let mut d = expr::Dag::new();
    let mut z = z3::Z3::new(0);
    let mut lc = libc::Libc { seed: 1, next_pipe: 1000, next_pid: 5000, ..Default::default() };
    let (mut irp, mut args, mut envs, mut max_par, mut deadline, mut max_forks) = (String::new(), vec![], vec![], 8i64, 600u64, u64::MAX);
    let mut assumes = vec![];
    let (mut argsym, mut envsym) = (vec![], vec![]);
    let mut dump_fns = None;
    for l in text.lines() {
        let f: Vec<&str> = l.splitn(2, ' ').collect();
        if f.len() < 2 || l.starts_with('#') { continue; }
        let rest = f[1];
        let sx = |d: &mut expr::Dag, s: &str| d.parse_sexpr(s).unwrap_or_else(|e| die(&format!("{}: {}", l, e)));
        match f[0] {
            "ir" => irp = ustr(rest),
            "cwd" => std::env::set_current_dir(ustr(rest)).unwrap_or_else(|e| die(&format!("cwd: {}", e))),
            "out" => { let f = std::fs::OpenOptions::new().create(true).append(true).open(ustr(rest)).unwrap_or_else(|e| die(&format!("out: {}", e))); lc.out_fd = f.into_raw_fd(); }
            "exe" => lc.exe = ustr(rest),
            "arg" => args.push(unescape(rest)),
            "env" => envs.push(unescape(rest)),
            "par" => max_par = rest.parse().unwrap(),
            "deadline" => deadline = rest.parse().unwrap(),
            "max_forks" => max_forks = rest.parse().unwrap(),
            "seed" => lc.seed = rest.parse().unwrap(),
            "dirorder" => lc.reverse_dir = rest == "reverse",
            "fnlist" => dump_fns = Some(ustr(rest)),
            "var" => { let p: Vec<&str> = rest.split(' ').collect(); d.var(p[0], p[1].parse().unwrap()); }
            "assume" => { let e = sx(&mut d, rest); assumes.push(e); }
            "file" => { let p: Vec<&str> = rest.splitn(3, ' ').collect(); let e = sx(&mut d, p[2]); lc.overlays.entry(ustr(p[0])).or_default().insert(p[1].parse().unwrap(), e); }
            "argsym" => { let p: Vec<&str> = rest.splitn(3, ' ').collect(); let e = sx(&mut d, p[2]); argsym.push((p[0].parse::<usize>().unwrap(), p[1].parse::<u64>().unwrap(), e)); }
            "envsym" => { let p: Vec<&str> = rest.splitn(3, ' ').collect(); let e = sx(&mut d, p[2]); envsym.push((p[0].parse::<usize>().unwrap(), p[1].parse::<u64>().unwrap(), e)); }
            "fault" => { let p: Vec<&str> = rest.splitn(2, ' ').collect(); let e = sx(&mut d, p[1]); lc.faults.insert(ustr(p[0]), e); }
            "flen" => { let p: Vec<&str> = rest.splitn(2, ' ').collect(); let e = sx(&mut d, p[1]); lc.flens.insert(ustr(p[0]), e); }
            "mtimens" => { let p: Vec<&str> = rest.splitn(2, ' ').collect(); let e = sx(&mut d, p[1]); lc.mtime_ns.insert(ustr(p[0]), e); }
            "mtime" => { let p: Vec<&str> = rest.splitn(2, ' ').collect(); let e = sx(&mut d, p[1]); lc.mtimes.insert(ustr(p[0]), e); }
            "proc" => { lc.procs.push(libc::ProcModel { id: ustr(rest), status: 0, ..Default::default() }); let z = d.constant(0, 32); lc.procs.last_mut().unwrap().status = z; }
            "proc.argv0" => lc.procs.last_mut().unwrap().argv0 = ustr(rest),
            "proc.contains" => lc.procs.last_mut().unwrap().contains.push(ustr(rest)),
            "proc.stdout" => lc.procs.last_mut().unwrap().stdout = ustr(rest),
            "proc.stderr" => lc.procs.last_mut().unwrap().stderr = ustr(rest),
            "proc.errno" => lc.procs.last_mut().unwrap().errno = rest.parse().unwrap(),
            "proc.status" => { let e = sx(&mut d, rest); lc.procs.last_mut().unwrap().status = e; }
            o => die(&format!("unknown directive {}", o)),
        }
    }
    let src: &'static [u8] = {
        let f = std::fs::File::open(&irp).unwrap_or_else(|e| die(&format!("{}: {}", irp, e)));
        let n = f.metadata().unwrap().len() as usize;
        let p = unsafe { mmap(std::ptr::null_mut(), n, 1, 2, f.into_raw_fd(), 0) };
        unsafe { std::slice::from_raw_parts(p, n) }
    };
    let mut mem = mem::Mem::new();
    let mut m = Module::load(src, |n, a| mem.raw(n, a)).unwrap_or_else(|e| die(&e));
    let inits: Vec<(u64, u32, V)> = (0..m.globals.len()).filter(|&i| m.globals[i].init && m.globals[i].section != "llvm.metadata").collect::<Vec<_>>().into_iter().map(|i| {
        let v = m.global_init(i).unwrap_or_else(|e| die(&e));
        (m.globals[i].addr, m.globals[i].ty, v)
    }).collect();
    if let Some(p) = dump_fns {
        let s: String = m.funcs.iter().enumerate().filter(|(_, f)| f.name.contains("16cargo_call_stack")).map(|(i, f)| format!("{} {}\n", i, f.name)).collect();
        std::fs::write(p, s).unwrap();
    }
    // witness for the assumptions
    let mut w: Vec<u64> = d.vars.iter().map(|_| 0).collect();
    if !assumes.is_empty() {
        for &a in &assumes { let t = d.to_bool(&mut z, a); z.assert(t); }
        let ids: Vec<u32> = d.vars.iter().map(|v| v.id).collect();
        let vs: Vec<_> = ids.iter().map(|&i| d.to_z3(&mut z, i)).collect();
        match z.check(None, &vs) { (z3::Res::Sat, v) => w = v, (r, _) => die(&format!("assumptions are {:?}", r)) }
    }
    d.set_witness(w);
    let sh = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.running.store(1, std::sync::atomic::Ordering::SeqCst);
    let mut x = Ex::new(m, d, z, mem, sh, lc);
    x.max_par = max_par;
    x.max_paths = max_forks;
    x.deadline = std::time::Instant::now() + std::time::Duration::from_secs(deadline);
    for &a in &assumes { if x.d.cst(a) == Some(0) { die("assumption is false"); } if x.d.cst(a).is_none() { x.assume(a, true); } }
    for (a, t, v) in inits { x.store_ty(a, t, &v); }
    x.libc.errno_at = x.mem.alloc(8, 16);
    x.libc.dent = x.mem.alloc(512, 16);
    // argv, envp
    let mut ptrs = vec![];
    for (k, a) in args.iter().enumerate() {
        let p = x.mem.put(a);
        for (i, o, e) in &argsym { if *i == k { x.mem.set_sh(p + o, *e); } }
        ptrs.push(p);
    }
    let argv = x.mem.alloc(8 * (ptrs.len() as u64 + 1), 16);
    for (i, p) in ptrs.iter().enumerate() { x.mem.wr(argv + 8 * i as u64, 8, *p); }
    x.mem.wr(argv + 8 * ptrs.len() as u64, 8, 0);
    let mut eptrs = vec![];
    for (k, e) in envs.iter().enumerate() {
        let p = x.mem.put(e);
        for (i, o, s) in &envsym { if *i == k { x.mem.set_sh(p + o, *s); } }
        let eq = e.iter().position(|&c| c == b'=').unwrap_or(e.len());
        x.libc.env.push((String::from_utf8_lossy(&e[..eq]).into_owned(), p + eq as u64 + 1));
        x.libc.base_env.push(e.clone());
        eptrs.push(p);
    }
    let envp = x.mem.alloc(8 * (eptrs.len() as u64 + 1), 16);
    for (i, p) in eptrs.iter().enumerate() { x.mem.wr(envp + 8 * i as u64, 8, *p); }
    x.mem.wr(envp + 8 * eptrs.len() as u64, 8, 0);
    if let Some(&g) = x.m.gmap.get("environ") { let a = x.m.globals[g as usize].addr; x.mem.wr(a, 8, envp); }
    let argc = V::C(args.len() as u64);
    // .init_array entries in order, then main
    let mut ia: Vec<(String, u64)> = x.m.globals.iter().filter(|g| g.section.starts_with(".init_array")).map(|g| (g.section.clone(), g.addr)).collect();
    ia.sort();
    for (_, a) in ia { let f = x.mem.rd(a, 8); x.call_addr(f, &[argc.clone(), V::C(argv), V::C(envp)]); }
    let mainf = *x.m.fmap.get("main").unwrap_or_else(|| die("no main"));
    let r = x.call(mainf, &[argc, V::C(argv)]);
    let c = x.concretize(&r, 32) as i32;
    x.finish("exit", c, "");
}
