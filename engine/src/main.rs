mod bdd;
mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn ins(v: &[(u32, u128)]) -> String {
    let s: Vec<String> = v.iter().map(|(w, x)| format!("[{w},\"{x}\"]")).collect();
    format!("[{}]", s.join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: zsym MODULE.ll ENTRY [--secs S] [--solver-ms N] [--samples N] [--seed N] [--max-alloc N] [--out FILE] [--dump DIR N]");
        std::process::exit(2);
    }
    if a[2] == "--list" {
        let m = ir::Module::load(&a[1]);
        let mut v: Vec<&String> = m.fdefs.keys().map(|k| &m.names[*k as usize]).filter(|n| n.starts_with("h_")).collect();
        v.sort();
        for n in v {
            println!("{n}");
        }
        return;
    }
    let mut lim = Limits {
        secs: 600.0,
        max_insts_path: 50_000_000,
        max_paths: u64::MAX,
        max_violations: 40,
        max_samples: 16,
        seed: 1,
        max_alloc: 1 << 26,
        opts: vec![],
        merge: true,
    };
    let mut solver_ms = 60_000;
    let mut out = None;
    let mut dump = None;
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--secs" => lim.secs = a[i + 1].parse().unwrap(),
            "--solver-ms" => solver_ms = a[i + 1].parse().unwrap(),
            "--samples" => lim.max_samples = a[i + 1].parse().unwrap(),
            "--seed" => lim.seed = a[i + 1].parse().unwrap(),
            "--max-alloc" => lim.max_alloc = a[i + 1].parse().unwrap(),
            "--opts" => lim.opts = a[i + 1].split(',').map(|x| x.parse().unwrap()).collect(),
            "--merge" => lim.merge = a[i + 1] != "0",
            "--max-insts" => lim.max_insts_path = a[i + 1].parse().unwrap(),
            "--out" => out = Some(a[i + 1].clone()),
            "--dump" => {
                dump = Some((std::path::PathBuf::from(&a[i + 1]), a[i + 2].parse().unwrap()));
                i += 1;
            }
            x => panic!("option {x}"),
        }
        i += 2;
    }
    let entry = a[2].clone();
    let path = a[1].clone();
    // deep recursion over expression graphs needs a large stack
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let m = ir::Module::load(&path);
            let mut e = Exec::new(&m, lim, solver_ms);
            e.s.dump = dump;
            e.run(&entry);
            let mut j = String::new();
            let _ = write!(j, "{{\"entry\":\"{}\",\"z3\":\"{}\"", esc(&entry), esc(&solver::version()));
            if let Some(p) = &e.prof {
                let mut v: Vec<_> = p.iter().collect();
                v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
                for (k, (n, ms)) in v.iter().take(15) {
                    eprintln!("{n:7} {ms:9.0} ms {k}");
                }
            }
            let complete = !e.timed_out && e.work.is_empty() && e.unsupported.is_empty();
            let _ = write!(j, ",\"complete\":{complete},\"timed_out\":{}", e.timed_out);
            let p: Vec<String> = e.paths.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
            let _ = write!(j, ",\"paths\":{{{}}},\"forks\":{},\"insts\":{}", p.join(","), e.forks, e.insts);
            let _ = write!(
                j,
                ",\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"solver_ms\":{:.1},\"solver_max_ms\":{:.1}",
                e.s.queries, e.s.sat, e.s.unsat, e.s.cached, e.s.ms, e.s.max_ms
            );
            let _ = write!(j, ",\"wall_s\":{:.2},\"nodes\":{},\"vars\":{}", e.start.elapsed().as_secs_f64(), e.c.nodes.len(), e.c.vars.len());
            let _ = write!(j, ",\"alloc_max\":{}", e.alloc_max);
            let p: Vec<String> = e.asserts.iter().map(|(k, v)| format!("\"{k}\":[{},{}]", v.0, v.1)).collect();
            let _ = write!(j, ",\"asserts\":{{{}}}", p.join(","));
            let p: Vec<String> = e
                .sums
                .iter()
                .filter_map(|(k, v)| v.as_ref().map(|s| (k, s)))
                .map(|(k, s)| {
                    let n = m.pretty.get(k).map(|s| s.as_str()).unwrap_or("?");
                    format!("\"{}\":{{\"paths\":{},\"bdd_nodes\":{},\"uses\":{}}}", esc(n), s.leaves, s.bdd.n.len(), e.sum_uses.get(k).unwrap_or(&0))
                })
                .collect();
            let _ = write!(j, ",\"merged\":{{{}}}", p.join(","));
            let p: Vec<String> = e.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
            let _ = write!(j, ",\"covers\":{{{}}}", p.join(","));
            let p: Vec<String> = e.unsupported.iter().map(|(k, v)| format!("\"{}\":{v}", esc(k))).collect();
            let _ = write!(j, ",\"unsupported\":{{{}}}", p.join(","));
            let p: Vec<String> = e.funcs_used.iter().map(|f| format!("\"{}\"", esc(m.pretty.get(f).map(|s| s.as_str()).unwrap_or("?")))).collect();
            let _ = write!(j, ",\"functions\":[{}]", p.join(","));
            let p: Vec<String> = e
                .violations
                .iter()
                .map(|v| {
                    let st: Vec<String> = v.stack.iter().take(12).map(|s| format!("\"{}\"", esc(s))).collect();
                    format!(
                        "{{\"kind\":\"{}\",\"msg\":\"{}\",\"loc\":\"{}\",\"stack\":[{}],\"inputs\":{}}}",
                        v.kind,
                        esc(&v.msg),
                        esc(&v.loc),
                        st.join(","),
                        ins(&v.inputs)
                    )
                })
                .collect();
            let _ = write!(j, ",\"violations\":[{}]", p.join(","));
            let p: Vec<String> = e
                .samples
                .iter()
                .map(|s| {
                    let l: Vec<String> = s.log.iter().map(|x| format!("\"{x}\"")).collect();
                    format!("{{\"outcome\":\"{}\",\"inputs\":{},\"log\":[{}]}}", s.outcome, ins(&s.inputs), l.join(","))
                })
                .collect();
            let _ = write!(j, ",\"samples\":[{}]}}", p.join(",\n"));
            match out {
                Some(f) => std::fs::write(f, j).unwrap(),
                None => println!("{j}"),
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
