//! One JSON record per explored path.
use crate::exec::Ex;
use crate::expr::*;
use crate::libc::js;
use std::collections::HashMap;

pub fn record(x: &mut Ex, kind: &str, code: i32, msg: &str) -> String {
    let so = std::mem::take(&mut x.libc.stdout);
    let se = std::mem::take(&mut x.libc.stderr);
    let out = x.sym_json(&so);
    let err = x.sym_json(&se);
    let mut roots: Vec<E> = x.pc.iter().map(|p| p.0).collect();
    roots.extend(x.libc.keep.iter().copied());
    roots.extend(x.libc.ev_exprs.iter().copied());
    let mut seen = HashMap::new();
    let mut order = vec![];
    for r in &roots { x.d.topo(*r, &mut seen, &mut order); }
    let mut s = String::with_capacity(1 << 16);
    s.push_str(&format!("{{\"kind\":{},\"code\":{},\"msg\":{},\"out\":{},\"err\":{},\"ev\":[{}],\"pc\":[", js(kind.as_bytes()), code, js(msg.as_bytes()), out, err, x.libc.events.join(",")));
    for (i, (e, b)) in x.pc.iter().enumerate() { if i > 0 { s.push(','); } s.push_str(&format!("[{},{}]", e, *b as u8)); }
    s.push_str("],\"nodes\":[");
    for (i, &e) in order.iter().enumerate() {
        let n = &x.d.n[e as usize];
        if i > 0 { s.push(','); }
        match n.op {
            Op::Const => s.push_str(&format!("[{},\"const\",{},{}]", e, n.w, n.k)),
            Op::Var => s.push_str(&format!("[{},\"var\",{},{}]", e, n.w, js(x.d.vars[n.k as usize].name.as_bytes()))),
            Op::Extract => s.push_str(&format!("[{},\"extract\",{},{},{}]", e, n.w, n.a, n.k)),
            Op::ZExt | Op::SExt => s.push_str(&format!("[{},\"{}\",{},{}]", e, op_name(n.op), n.w, n.a)),
            Op::Ite => s.push_str(&format!("[{},\"ite\",{},{},{},{}]", e, n.w, n.a, n.b, n.c)),
            o => s.push_str(&format!("[{},\"{}\",{},{},{}]", e, op_name(o), n.w, n.a, n.b)),
        }
    }
    s.push_str("],\"wit\":{");
    for (i, v) in x.d.vars.iter().enumerate() { if i > 0 { s.push(','); } s.push_str(&format!("{}:{}", js(v.name.as_bytes()), x.d.witness[i])); }
    let mine: Vec<String> = x.executed.iter().enumerate().filter(|(_, e)| **e).filter(|(i, _)| x.m.funcs[*i].name.contains("16cargo_call_stack")).map(|(i, _)| i.to_string()).collect();
    let total = x.executed.iter().filter(|e| **e).count();
    s.push_str(&format!("}},\"fns\":[{}],\"nfn\":{},\"q\":{},\"ns\":{},\"steps\":{},\"depth\":{}}}\n", mine.join(","), total, x.z.queries, x.z.nanos, x.steps, x.depth));
    s
}
