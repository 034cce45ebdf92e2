mod gen;
mod props;
mod rt;
mod spec;
mod text;
use std::io::Read;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[allow(dead_code)]
fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

#[cfg(feature = "sym")]
fn main() {
    // harness PROPERTY TIER BUDGET_SECONDS THREADS [HARNESS]
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "bounds" {
        for p in props::all() {
            println!("{}\t{}\t{}\t{}", p.property, p.name, p.cap, p.bounds);
        }
        return;
    }
    if a[1] == "list" {
        for p in props::all() {
            println!("{} {} {}", p.property, p.name, p.thorough_only as u8);
        }
        return;
    }
    let (prop, tier) = (&a[1], &a[2]);
    let budget: f64 = a[3].parse().unwrap();
    let threads: usize = a[4].parse().unwrap();
    let only = a.get(5);
    let list: Vec<props::Harness> = props::all()
        .into_iter()
        .filter(|p| p.property == prop && (tier == "thorough" || !p.thorough_only))
        .filter(|p| only.map_or(true, |o| o.split(',').any(|n| n == p.name)))
        .collect();
    let total: f64 = list.iter().map(|p| p.weight).sum();
    props::set_tier(tier == "thorough");
    let start = std::time::Instant::now();
    let mut spent_weight = 0.0;
    for p in list {
        // unused time of earlier harnesses is passed on
        let left = budget - start.elapsed().as_secs_f64();
        let share = (left * p.weight / (total - spent_weight)).max(2.0);
        spent_weight += p.weight;
        let cfg = symrt::Config {
            threads,
            budget: std::time::Duration::from_secs_f64(share),
            max_violations: 30,
            sample_every: 97,
            max_samples: 40,
            panics_are_violations: true,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            shape_cap: if tier == "thorough" { p.cap * 20 } else { p.cap },
        };
        let f = p.run;
        let r = symrt::explore(f, &cfg);
        let s = &r.stats;
        let map = |m: &std::collections::BTreeMap<String, u64>| {
            format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
        };
        let cases = |v: &[symrt::Case]| {
            let mut out = vec![];
            for c in v {
                out.push(format!(
                    "{{\"label\":{},\"detail\":{},\"inputs\":{},\"observed\":{}}}",
                    esc(&c.label), esc(&c.detail), arr(&c.inputs), arr(&c.observed)
                ));
            }
            format!("[{}]", out.join(","))
        };
        println!(
            "{{\"harness\":{},\"bounds\":{},\"complete\":{},\"wall\":{:.2},\"paths\":{},\"shapes\":{},\"shapes_cut\":{},\"infeasible\":{},\"branches\":{},\"forced\":{},\"queries\":{},\"unknown\":{},\"checks\":{},\"undecided\":{},\"solver_s\":{:.2},\"max_depth\":{},\"cut\":{},\"labels\":{},\"witnesses\":{},\"functions\":[{}],\"violations\":{},\"samples\":{}}}",
            esc(p.name), esc(p.bounds), r.complete && s.shapes_cut == 0, r.wall, s.paths, s.shapes, s.shapes_cut, s.infeasible, s.branches, s.forced, s.queries, s.unknown,
            s.checks, s.undecided, s.solver_ns as f64 / 1e9, s.max_depth, map(&s.cut), map(&s.labels), map(&s.witnesses),
            s.functions.iter().map(|f| format!("\"{:016x}\"", f)).collect::<Vec<_>>().join(","),
            cases(&r.violations), cases(&r.samples)
        );
    }
    let _ = std::io::stdin().take(0);
    // workers left behind are not waited for
    use std::io::Write;
    std::io::stdout().flush().ok();
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    unsafe { _exit(0) }
}

#[cfg(not(feature = "sym"))]
fn main() {
    // harness TIER < cases; a case is: property, harness, inputs (name=value), then a line "run"
    let tier = std::env::args().nth(1).unwrap_or_default();
    props::set_tier(tier == "thorough");
    std::panic::set_hook(Box::new(|_| {}));
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let mut lines: Vec<String> = vec![];
    for l in text.lines() {
        if l != "run" {
            lines.push(l.to_string());
            continue;
        }
        let case = std::mem::take(&mut lines);
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || one(case))
            .unwrap();
        println!("{}", h.join().unwrap_or_else(|_| "{\"outcome\":\"error\"}".into()));
    }
}

#[cfg(not(feature = "sym"))]
fn one(case: Vec<String>) -> String {
    let (prop, name) = (case[0].clone(), case[1].clone());
    rt::INPUTS.with(|i| {
        let mut i = i.borrow_mut();
        i.clear();
        for l in &case[2..] {
            if let Some((k, v)) = l.split_once('=') {
                i.insert(k.to_string(), v.to_string());
            }
        }
    });
    let f = match props::all().into_iter().find(|p| p.property == prop && p.name == name) {
        Some(p) => p.run,
        None => return "{\"outcome\":\"error\"}".into(),
    };
    let r = std::panic::catch_unwind(f);
    let obs = rt::OBS.with(|o| o.borrow().clone());
    let (outcome, label, detail) = match r {
        Ok(()) => ("pass", String::new(), String::new()),
        Err(p) => match p.downcast_ref::<rt::Stop>() {
            Some(rt::Stop::Violation(l, d)) => ("violation", l.clone(), d.clone()),
            Some(rt::Stop::OutOfScope(d)) => ("out-of-scope", String::new(), d.clone()),
            None => {
                let m = p
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| p.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                ("violation", "no-panic".to_string(), format!("panicked: {}", m))
            }
        },
    };
    format!(
        "{{\"outcome\":{},\"label\":{},\"detail\":{},\"observed\":{}}}",
        esc(outcome), esc(&label), esc(&detail), arr(&obs)
    )
}
