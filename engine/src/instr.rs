//! Insert runtime hooks into textual IR, so that a counterexample can be replayed natively with
//! exactly the engine's access numbering.
use crate::exec::store_size;
use crate::ir::{Lx, Module};
use std::fmt::Write as _;

/// The pointer operand starting right after "ptr ": a local, a global or a constant expression.
fn operand(s: &str) -> &str {
    let b = s.as_bytes();
    let mut i = 0;
    let mut d = 0;
    let mut q = false;
    while i < b.len() {
        match b[i] {
            b'"' => q = !q,
            b'(' | b'[' | b'{' if !q => d += 1,
            b')' | b']' | b'}' if !q => {
                if d == 0 {
                    break;
                }
                d -= 1;
            }
            b',' if !q && d == 0 => break,
            b' ' if !q && d == 0 => {
                // a constant expression keeps going: "getelementptr inbounds (..."
                let w = &s[..i];
                let last = w.rsplit(' ').next().unwrap_or("");
                if !matches!(
                    last,
                    "getelementptr" | "inbounds" | "nuw" | "nusw" | "inttoptr"
                ) {
                    break;
                }
            }
            _ => {}
        }
        i += 1;
    }
    s[..i].trim()
}

pub fn instrument(inp: &str, out: &str) -> Result<(), String> {
    let m = Module::load(inp)?;
    let mut o = String::with_capacity(m.text.len() * 2);
    let mut infn = false;
    let mut declared = std::collections::HashSet::new();
    for line in m.text.lines() {
        if line.starts_with("declare ") {
            if let Some(a) = crate::ir::find_at(line) {
                let mut lx = Lx::new(line);
                lx.i = a + 1;
                declared.insert(lx.name());
            }
        }
    }
    for line in m.text.lines() {
        if line.starts_with("define ") {
            infn = true;
        } else if line.starts_with('}') {
            infn = false;
        }
        let t = line.trim_start();
        if !infn || t.starts_with("define ") {
            if line.starts_with("declare ") && (line.contains("@bcmp(") || line.contains("@memcmp(") || line.contains("@clock_gettime(")) {
                continue;
            }
            o.push_str(line);
            o.push('\n');
            continue;
        }
        let body = match t.find(" = ") {
            Some(k) if t.starts_with('%') => &t[k + 3..],
            _ => t,
        };
        let hook = |o: &mut String, p: &str, n: u64, w: u32| {
            let _ = writeln!(o, "  call void @vs_hook(ptr {p}, i64 {n}, i32 {w})");
        };
        let ty_size = |s: &str| -> Result<u64, String> {
            let mut lx = Lx::new(s);
            Ok(store_size(&m.ty(&mut lx)?))
        };
        if let Some(r) = body.strip_prefix("load ") {
            let r = r.trim_start_matches("atomic ").trim_start_matches("volatile ");
            let n = ty_size(r)?;
            let k = r.find(", ptr ").ok_or("load")?;
            hook(&mut o, operand(&r[k + 6..]), n, 0);
        } else if let Some(r) = body.strip_prefix("store ") {
            let r = r.trim_start_matches("atomic ").trim_start_matches("volatile ");
            let n = ty_size(r)?;
            // the value may itself contain ", ptr " (aggregate or constant expression): take the last one
            let cut = r.find(", align").or_else(|| r.find(", !")).unwrap_or(r.len());
            let k = top_level_ptr(&r[..cut]).ok_or_else(|| format!("store: {line}"))?;
            hook(&mut o, operand(&r[k..]), n, 1);
        } else if let Some(r) = body.strip_prefix("atomicrmw ") {
            let k = r.find("ptr ").ok_or("rmw")?;
            let p = operand(&r[k + 4..]);
            let rest = &r[k + 4 + p.len()..];
            let n = ty_size(rest.trim_start_matches(", "))?;
            hook(&mut o, p, n, 1);
        } else if let Some(r) = body.strip_prefix("cmpxchg ") {
            let k = r.find("ptr ").ok_or("cas")?;
            let p = operand(&r[k + 4..]);
            let rest = &r[k + 4 + p.len()..];
            let n = ty_size(rest.trim_start_matches(", "))?;
            hook(&mut o, p, n, 1);
        } else if t == "unreachable" || t.starts_with("unreachable,") {
            o.push_str("  call void @vs_unreachable()\n");
        }
        let mut l = line.to_string();
        if l.contains("call ") || l.contains("invoke ") {
            for (a, b) in [
                ("@llvm.memcpy.p0.p0.i64(", "@vs_memcpy("),
                ("@llvm.memmove.p0.p0.i64(", "@vs_memcpy("),
                ("@llvm.memset.p0.i64(", "@vs_memset("),
                ("@bcmp(", "@vs_bcmp("),
                ("@memcmp(", "@vs_memcmp("),
                ("@clock_gettime(", "@vs_clock_gettime("),
                ("@llvm.assume(", "@vs_assume_ub("),
            ] {
                if l.contains(a) {
                    l = l.replace(a, b);
                    // attributes of the intrinsic call do not carry over
                    if let Some(k) = l.find(") #") {
                        l.truncate(k + 1);
                    }
                    l = l.replace("tail call", "call").replace("captures(none)", "");
                    if b == "@vs_assume_ub(" {
                        if let Some(k) = l.find(") [") {
                            l.truncate(k + 1);
                        }
                    }
                }
            }
            if l.contains("std_detect6detect5cache21detect_and_initialize") {
                if let (Some(e), Some(k)) = (l.find(" = "), l.find("; call").or(Some(0))) {
                    if k == 0 {
                        l = format!("{} = call i128 @vs_cpu_features()", &l[..e]);
                    }
                }
            }
            if l.contains("@llvm.experimental.noalias.scope.decl") {
                continue;
            }
        }
        o.push_str(&l);
        o.push('\n');
    }
    o.push_str(
        "declare void @vs_hook(ptr, i64, i32)\ndeclare void @vs_memcpy(ptr, ptr, i64, i1)\ndeclare void @vs_memset(ptr, i8, i64, i1)\ndeclare i32 @vs_clock_gettime(i32, ptr)\ndeclare i128 @vs_cpu_features()\ndeclare i32 @vs_bcmp(ptr, ptr, i64)\ndeclare i32 @vs_memcmp(ptr, ptr, i64)\ndeclare void @vs_unreachable()\ndeclare void @vs_assume_ub(i1)\n",
    );
    std::fs::write(out, o).map_err(|e| e.to_string())
}

/// Offset just after the top-level ", ptr " of "TY VAL, ptr P".
fn top_level_ptr(r: &str) -> Option<usize> {
    let b = r.as_bytes();
    let mut d = 0;
    let mut q = false;
    let mut i = 0;
    let mut best = None;
    while i < b.len() {
        match b[i] {
            b'"' => q = !q,
            b'(' | b'[' | b'{' | b'<' if !q => d += 1,
            b')' | b']' | b'}' | b'>' if !q => d -= 1,
            b',' if !q && d == 0 && r[i..].starts_with(", ptr ") => best = Some(i + 6),
            _ => {}
        }
        i += 1;
    }
    best
}
