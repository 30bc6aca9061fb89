//! vh check ID | vh worker ... | vh replay ID SEED IDX | vh list
use std::collections::BTreeMap;
use std::time::{Duration, Instant};
use vh::pool::*;

fn envu(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.trim().parse().ok()).unwrap_or(d)
}
fn verif() -> String {
    std::env::var("VH_DIR").unwrap_or("/verif".into())
}

struct Known {
    prop: String,
    sig: String,
    what: String,
}
/// known_findings.txt: lines `known: property=<id> sig=<signature> ;; <what fails>`;
/// `fixed:` lines are a record only and suppress nothing.
fn known() -> Vec<Known> {
    let mut v = Vec::new();
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    for l in s.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("known: property=") {
            if let Some((p, r)) = r.split_once(" sig=") {
                let (sig, what) = r.split_once(" ;; ").unwrap_or((r, r));
                v.push(Known { prop: p.trim().into(), sig: sig.trim().into(), what: what.trim().into() });
            }
        }
    }
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in vh::props::plans() {
                println!("{} quick={} thorough={}", p.prop, p.quick, p.thorough);
            }
        }
        "oob" => {
            // a read past the end of a block, for check.sh to see that the sanitizer is at work
            let v = vec![1u8; 24];
            let p = std::hint::black_box(v.as_ptr());
            println!("{}", unsafe { *p.add(std::hint::black_box(25)) });
        }
        "race" => {
            // a data race, for check.sh to see that the sanitizer is at work
            static mut X: u64 = 0;
            let t = std::thread::spawn(|| unsafe {
                let p = &raw mut X;
                *p += 1
            });
            unsafe {
                let p = &raw mut X;
                *p += 1
            }
            t.join().unwrap();
        }
        "worker" => {
            let plan = vh::props::plan(&a[2]);
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            worker(&plan, n(3), n(4) == 1, n(5), n(6), n(7));
        }
        "replay" => {
            let plan = vh::props::plan(&a[2]);
            install_panic_hook();
            vh::mem::set_cap(plan.memcap);
            let seed = a[3].parse().unwrap();
            let idx: u64 = a[4].parse().unwrap();
            let end: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(idx + 1);
            let mut bad = 0;
            for i in idx..end {
                let t = Instant::now();
                let (c, v) = run_case(&plan, seed, i, envu("VH_THOROUGH", 0) == 1);
                if end == idx + 1 {
                    println!("events: {:?}\nsample: {:?}", c.feats, c.sample);
                }
                match v {
                    Some(v) => {
                        println!("{} VIOLATED {}\n{}", i, v.sig, v.detail);
                        bad = 1;
                    }
                    None => {
                        if end == idx + 1 {
                            println!("held ({:?})", t.elapsed());
                        }
                    }
                }
            }
            std::process::exit(bad);
        }
        "job" => println!("{}", vh::props::c18::job(a[2].parse().unwrap(), a[3].parse().unwrap())),
        "check" => check(&a[2]),
        _ => {
            eprintln!("usage: vh list | check ID | replay ID SEED IDX [END]");
            std::process::exit(2);
        }
    }
}

fn check(id: &str) {
    let plan = vh::props::plan(id);
    let seed = envu("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let n = envu("VH_N", if thorough { plan.thorough } else { plan.quick });
    let first = envu("VH_FIRST", 0);
    let budget = envu("VH_BUDGET", if thorough { 780 } else { plan.budget });
    let t0 = Instant::now();
    let mut agg = Agg::default();
    let mut stages = Vec::new();
    let self_exe = std::env::current_exe().unwrap().to_string_lossy().to_string();
    // extra instrumented builds: VH_EXTRA="name=path:cases:extra_env,..." given by check.sh
    let mut todo = vec![("plain".to_string(), self_exe.clone(), n, first, Vec::<(String, String)>::new(), if thorough { CPU_LIMIT * 2.0 } else { CPU_LIMIT })];
    if let Ok(x) = std::env::var("VH_EXTRA") {
        for e in x.split(';').filter(|s| !s.is_empty()) {
            let f: Vec<&str> = e.split('|').collect();
            let cases: u64 = f[2].parse().unwrap();
            let mut env = Vec::new();
            for kv in f.iter().skip(3) {
                if let Some((k, v)) = kv.split_once('=') {
                    env.push((k.to_string(), v.to_string()));
                }
            }
            todo.push((f[0].to_string(), f[1].to_string(), cases, first + 1_000_000, env, CPU_LIMIT * 4.0));
        }
    }
    for (name, exe, n, first, env, cpu) in todo {
        let left = Duration::from_secs(budget).saturating_sub(t0.elapsed());
        let cfg = RunCfg { exe: exe.clone(), env: env.clone(), seed, thorough, n, first, budget: left.max(Duration::from_secs(5)), cpu_limit: cpu };
        let a = run(&plan, &cfg);
        stages.push((name.clone(), a.cases, n, a.timed_out));
        agg.evals += a.evals;
        agg.cases += a.cases;
        for (k, v) in a.feats {
            *agg.feats.entry(k).or_insert(0) += v;
        }
        agg.hashes.extend(a.hashes);
        agg.samples.extend(a.samples);
        for (i, mut v) in a.viols {
            v.detail = format!("[{} build: {}] {}", name, exe, v.detail);
            agg.viols.push((i, v));
        }
        agg.errors.extend(a.errors);
        agg.timed_out |= a.timed_out;
    }
    let kn = known();
    let mut by: BTreeMap<String, (u64, Viol, u64)> = BTreeMap::new();
    agg.viols.sort_by_key(|x| x.0);
    for (i, v) in &agg.viols {
        let e = by.entry(v.sig.clone()).or_insert((*i, v.clone(), 0));
        e.2 += 1;
    }
    let mut nviol = 0;
    let mut knseen = BTreeMap::new();
    let mut lines = Vec::new();
    for (sig, (i, v, cnt)) in &by {
        if nviol >= 12 {
            nviol += 1;
            continue;
        }
        if let Some(k) = kn.iter().find(|k| k.prop == id && normalize(sig).starts_with(&normalize(&k.sig))) {
            *knseen.entry(k.sig.clone()).or_insert(0u64) += *cnt;
            continue;
        }
        nviol += 1;
        let dir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-s{}-{}.txt", dir, id, seed, i);
        let body = format!(
            "property {}\nseed {} case {} tier {}\nsignature: {}\nseen in {} case(s)\nreplay: {}/check.sh replay {} {} {}\n\n{}\n",
            id,
            seed,
            i,
            tier,
            sig,
            cnt,
            verif(),
            id,
            seed,
            i,
            v.detail
        );
        let _ = std::fs::write(&path, body);
        println!("  {} (case {}, {} occurrence(s))\n    {}", sig, i, cnt, v.detail.lines().next().unwrap_or("").chars().take(600).collect::<String>());
        lines.push(format!("VIOLATION property={} replay={}", id, path));
    }
    for k in kn.iter().filter(|k| k.prop == id) {
        println!("KNOWN-FINDING: property={} {} (seen {} time(s) in this run)", id, k.what, knseen.get(&k.sig).unwrap_or(&0));
    }
    for l in &lines {
        println!("{}", l);
    }
    if agg.samples.is_empty() {
        agg.samples.push(format!("{} cases", agg.cases));
    }
    agg.samples.truncate(12);
    let ev: Vec<String> = agg.feats.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let st: Vec<String> = stages.iter().map(|(n, c, want, t)| format!("{{\"build\": {}, \"cases\": {}, \"planned\": {}, \"stopped_by_time\": {}}}", jstr(n), c, want, t)).collect();
    let json = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"cases\": {}, \"stages\": [{}], \"observed\": {{{}}}, \"known_findings_seen\": {}}}, \"wall_s\": {:.1}, \"violations\": {}, \"assumptions\": [{}]}}\n",
        jstr(id),
        jstr(&tier),
        seed,
        agg.evals.max(agg.cases),
        agg.hashes.len(),
        jstr(plan.rule),
        agg.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        agg.cases,
        st.join(", "),
        ev.join(", "),
        knseen.values().sum::<u64>(),
        t0.elapsed().as_secs_f64(),
        nviol,
        plan.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif(), id), json);
    println!("{}: {} cases, {} evaluations, {} distinct, {} violation(s), {:.1} s{}", id, agg.cases, agg.evals, agg.hashes.len(), nviol, t0.elapsed().as_secs_f64(), if agg.timed_out { " (stopped by time)" } else { "" });
    if nviol > 0 {
        std::process::exit(1);
    }
    if !agg.errors.is_empty() || agg.cases == 0 {
        for e in &agg.errors {
            eprintln!("harness error: {}", e);
        }
        std::process::exit(3);
    }
}
