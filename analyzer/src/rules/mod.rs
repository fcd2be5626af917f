use crate::interp::*;
use crate::state::*;
pub mod api;
pub mod bits;
pub mod blocks;
pub mod codes;
pub mod container;
pub mod delivery;
pub mod effects;
pub mod fresh;
pub mod header;
pub mod cover;
pub mod matches;
pub mod intake;

pub fn run(pr: &Prog, prop: &str, _args: &[String]) -> i32 {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C09" | "C08" | "C10" | "C11" | "C17" | "C18" => delivery::run(pr, prop),
        "C15" => codes::run(pr, prop),
        "C16" => header::run(pr, prop),
        "C13" => cover::run(pr, prop),
        "C12" | "C21" => matches::run(pr, prop),
        "C19" => bits::run(pr, prop),
        "C20" => effects::run(pr, prop),
        _ => 2,
    }
}

/// Run independent parts of an analysis at the same time.
pub fn parallel(pr: &Prog, prop: &str, parts: &[&str], f: &(dyn Fn(&str, &mut Log) + Sync)) -> i32 {
    let mut logs: Vec<Log> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = parts
            .iter()
            .filter(|p| std::env::var("VPART").map_or(true, |v| v.split(',').any(|x| x == **p)))
            .map(|p| {
                std::thread::Builder::new()
                    .stack_size(2 << 30)
                    .spawn_scoped(s, move || {
                        let mut l = Log::default();
                        f(p, &mut l);
                        l
                    })
                    .unwrap()
            })
            .collect();
        // What was met on the way to the fixpoint is part of it: once there
        // are violations, the rest is not needed.
        let t = std::time::Instant::now();
        while hs.iter().any(|h| !h.is_finished()) {
            std::thread::sleep(std::time::Duration::from_millis(50));
            if t.elapsed().as_secs() >= 150 && !FOUND.lock().unwrap().is_empty() {
                let mut l = Log::default();
                l.violations = FOUND.lock().unwrap().clone();
                l.notes.push("stopped at the first violations, before the fixpoint was reached".to_string());
                std::process::exit(finish(pr, &l, prop));
            }
        }
        for h in hs {
            match h.join() {
                Ok(l) => logs.push(l),
                Err(_) => std::process::exit(101),
            }
        }
    });
    let mut all = Log::default();
    for l in logs {
        all.add(l);
    }
    finish(pr, &all, prop)
}

pub fn finish(pr: &Prog, l: &Log, prop: &str) -> i32 {
    let vs: Vec<serde_json::Value> = l
        .violations
        .values()
        .map(|v| serde_json::json!({"what": v.what, "file": v.file, "line": v.line, "function": v.func, "path": v.stack}))
        .collect();
    let local: Vec<&str> = l.fns.iter().filter(|f| pr.p.fns[**f as usize].local).map(|f| pr.p.fns[*f as usize].name.as_str()).collect();
    let j = serde_json::json!({
        "property": prop,
        "violations": vs,
        "obligation_sites": l.sites,
        "obligations": l.obligations,
        "functions_analysed": local,
        "functions_total": l.fns.len(),
        "calls": l.calls,
        "blocks": l.blocks,
        "joins": l.joins,
        "loops": l.loops,
        "gave_up": l.gave_up,
        "opaque": l.havocs,
        "lost": l.lost,
        "summaries": l.contracts,
        "notes": l.notes,
    });
    match std::env::var("VANALYZE_OUT") {
        Ok(p) => std::fs::write(p, serde_json::to_string_pretty(&j).unwrap()).unwrap(),
        Err(_) => {
            eprintln!("{} calls={} blocks={} joins={} loops={} fns={} syms={}", prop, l.calls, l.blocks, l.joins, l.loops, l.fns.len(), crate::lin::nsyms());
            for n in &l.notes {
                eprintln!("  {}", n);
            }
            for (k, v) in &l.sites {
                eprintln!("  obligation {} x{}", k, v);
            }
            for (w, m) in [("gave up", &l.gave_up), ("opaque", &l.havocs), ("lost", &l.lost)] {
                for (k, v) in m {
                    eprintln!("  {} {} x{}", w, k, v);
                }
            }
        }
    }
    for v in l.violations.values() {
        println!("VIOLATION {} {}:{} in {}", v.what, v.file, v.line, v.func);
        for s in &v.stack {
            println!("      {}", s);
        }
    }
    if l.violations.is_empty() {
        0
    } else {
        1
    }
}
