//! Case runner: worker sub-processes execute deterministic cases, the parent watches them.
//!
//! Verdicts are three-valued. A case is
//!   * a violation: the oracle said so, the code under test panicked, the worker died by a
//!     signal / sanitizer report / memory cap, every thread of the worker is blocked with
//!     nothing that could wake it, or the case burned more than CPU_LIMIT seconds of CPU time
//!     (hundreds of times the worst honest case);
//!   * held; or
//!   * inconclusive: not executed (time budget). Reported in the evidence, never as a violation.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub feats: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub sample: Option<String>,
    pub evals: u64,
}
impl Case {
    pub fn new(prop: &str, seed: u64, idx: u64, thorough: bool) -> Self {
        Case { rng: Rng::for_case(seed, prop, idx), idx, seed, thorough, feats: BTreeMap::new(), hashes: Vec::new(), sample: None, evals: 0 }
    }
    /// count an observed event / state class
    pub fn seen<S: Into<String>>(&mut self, s: S) {
        *self.feats.entry(s.into()).or_insert(0) += 1;
    }
    pub fn add<S: Into<String>>(&mut self, s: S, n: u64) {
        *self.feats.entry(s.into()).or_insert(0) += n;
    }
    /// a distinct non-trivial evaluation, identified by a hash of what was evaluated
    pub fn distinct(&mut self, h: u64) {
        self.hashes.push(h);
    }
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
}
#[derive(Debug, Clone)]
pub struct Viol {
    /// stable signature: what failed, without line numbers or case numbers
    pub sig: String,
    pub detail: String,
}
pub fn viol<A: Into<String>, B: Into<String>>(sig: A, detail: B) -> Viol {
    Viol { sig: sig.into(), detail: detail.into() }
}
pub type CaseFn = fn(&mut Case) -> Result<(), Viol>;

#[derive(Clone)]
pub struct Plan {
    pub prop: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub memcap: usize,
    pub workers: usize,
    /// wall seconds for the quick tier
    pub budget: u64,
    pub case: CaseFn,
}

pub const CPU_LIMIT: f64 = 60.0;
pub const BLOCKED_SECS: u64 = 12;

/// panics provoked on purpose
pub fn forget_panics() {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).clear();
}
pub static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or(("?".into(), 0));
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let file = short_file(&loc.0);
        let sig = format!("panic {}: {}", file, normalize(&msg));
        let bt = if std::env::var("VH_BT").is_ok() { format!("\n{}", std::backtrace::Backtrace::force_capture()) } else { String::new() };
        let detail = format!("panicked at {}:{}: {}{}", loc.0, loc.1, msg, bt);
        if let Ok(mut p) = PANICS.lock() {
            p.push((sig, detail));
        }
    }));
}
fn short_file(f: &str) -> String {
    if let Some(p) = f.find("/repo/src/") {
        return f[p + 6..].to_string();
    }
    if let Some(p) = f.find("registry/src/") {
        let s = &f[p + 13..];
        return s.splitn(2, '/').nth(1).unwrap_or(s).to_string();
    }
    f.rsplit('/').next().unwrap_or(f).to_string()
}
/// strip digits so that signatures do not depend on values
pub fn normalize(m: &str) -> String {
    let mut out = String::new();
    let mut last = false;
    for c in m.chars().take(160) {
        if c.is_ascii_digit() {
            if !last {
                out.push('N');
            }
            last = true;
        } else {
            last = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
    }
    out
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn run_case(plan: &Plan, seed: u64, idx: u64, thorough: bool) -> (Case, Option<Viol>) {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let mut c = Case::new(plan.prop, seed, idx, thorough);
    let f = plan.case;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
    let panics: Vec<(String, String)> = PANICS.lock().unwrap_or_else(|e| e.into_inner()).drain(..).collect();
    let v = match r {
        Err(_) => {
            let (s, d) = panics.first().cloned().unwrap_or(("panic".into(), "panic".into()));
            Some(viol(s, d))
        }
        Ok(Err(v)) => {
            // a panic in a helper thread usually explains the oracle's complaint
            if let Some((s, d)) = panics.first() {
                Some(viol(s.clone(), format!("{} (then: {} {})", d, v.sig, v.detail)))
            } else {
                Some(v)
            }
        }
        Ok(Ok(())) => panics.first().map(|(s, d)| viol(s.clone(), format!("in a helper thread: {}", d))),
    };
    (c, v)
}

extern "C" {
    fn mallopt(p: i32, v: i32) -> i32;
}
/// worker side
pub fn worker(plan: &Plan, seed: u64, thorough: bool, start: u64, step: u64, end: u64) {
    install_panic_hook();
    // keep big blocks in the heap: the codec states are megabytes, and mapping them anew for every case costs more than the case
    unsafe {
        mallopt(-3, 1 << 25);
        mallopt(-1, i32::MAX);
    }
    crate::mem::set_cap(plan.memcap);
    let so = std::io::stdout();
    let mut idx = start;
    while idx < end {
        {
            let mut l = so.lock();
            let _ = writeln!(l, "S\t{}", idx);
            let _ = l.flush();
        }
        let (c, v) = run_case(plan, seed, idx, thorough);
        let mut l = so.lock();
        if let Some(v) = v {
            let _ = writeln!(l, "V\t{}\t{}\t{}", idx, esc(&v.sig), esc(&v.detail));
        }
        for (k, n) in &c.feats {
            let _ = writeln!(l, "F\t{}\t{}", esc(k), n);
        }
        for h in &c.hashes {
            let _ = writeln!(l, "H\t{:x}", h);
        }
        if let Some(s) = &c.sample {
            let _ = writeln!(l, "X\t{}", esc(s));
        }
        let _ = writeln!(l, "E\t{}\t{}", idx, c.evals);
        let _ = l.flush();
        idx += step;
    }
}

#[derive(Default)]
pub struct Agg {
    pub evals: u64,
    pub cases: u64,
    pub feats: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<(u64, Viol)>,
    pub errors: Vec<String>,
    pub timed_out: bool,
}

pub fn clk() -> f64 {
    100.0
}
/// (total cpu seconds, all threads sleeping?, sum of context switches)
pub fn proc_state(pid: u32) -> Option<(f64, bool, u64)> {
    let mut cpu = 0.0;
    let mut asleep = true;
    let mut sw = 0;
    let rd = std::fs::read_dir(format!("/proc/{}/task", pid)).ok()?;
    for e in rd.flatten() {
        let p = e.path();
        let s = std::fs::read_to_string(p.join("stat")).ok()?;
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        if f[0] != "S" {
            asleep = false;
        }
        cpu += (f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?) / clk();
        if let Ok(st) = std::fs::read_to_string(p.join("status")) {
            for l in st.lines() {
                if l.contains("ctxt_switches") {
                    sw += l.rsplit('\t').next().and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(0);
                }
            }
        }
    }
    Some((cpu, asleep, sw))
}

pub struct RunCfg {
    pub exe: String,
    pub env: Vec<(String, String)>,
    pub seed: u64,
    pub thorough: bool,
    pub n: u64,
    pub first: u64,
    pub budget: Duration,
    pub cpu_limit: f64,
}

pub fn run(plan: &Plan, cfg: &RunCfg) -> Agg {
    let agg = Arc::new(Mutex::new(Agg::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let t0 = Instant::now();
    let nw = plan.workers as u64;
    let mut hs = Vec::new();
    for w in 0..nw {
        let agg = agg.clone();
        let stop = stop.clone();
        let exe = cfg.exe.clone();
        let env = cfg.env.clone();
        let (seed, thorough, end, budget, cpul) = (cfg.seed, cfg.thorough, cfg.first + cfg.n, cfg.budget, cfg.cpu_limit);
        let prop = plan.prop.to_string();
        let first = cfg.first;
        hs.push(std::thread::spawn(move || {
            let mut next = first + w;
            while next < end && !stop.load(Ordering::Relaxed) {
                next = one_worker(&exe, &env, &prop, seed, thorough, next, nw, end, t0, budget, cpul, &agg, &stop);
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap()
}

#[allow(clippy::too_many_arguments)]
fn one_worker(
    exe: &str,
    env: &[(String, String)],
    prop: &str,
    seed: u64,
    thorough: bool,
    start: u64,
    step: u64,
    end: u64,
    t0: Instant,
    budget: Duration,
    cpul: f64,
    agg: &Arc<Mutex<Agg>>,
    stop: &Arc<AtomicBool>,
) -> u64 {
    let mut cmd = Command::new(exe);
    cmd.args(["worker", prop, &seed.to_string(), if thorough { "1" } else { "0" }, &start.to_string(), &step.to_string(), &end.to_string()]);
    for (k, v) in env {
        cmd.env(k, v);
    }
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            agg.lock().unwrap().errors.push(format!("spawn: {}", e));
            stop.store(true, Ordering::Relaxed);
            return end;
        }
    };
    let pid = ch.id();
    let cur = Arc::new(AtomicU64::new(u64::MAX)); // case running
    let started = Arc::new(Mutex::new((Instant::now(), 0.0f64)));
    let memcap = Arc::new(Mutex::new(None::<String>));
    let out = ch.stdout.take().unwrap();
    let err = ch.stderr.take().unwrap();
    let errbuf = Arc::new(Mutex::new(Vec::<u8>::new()));
    let eb = errbuf.clone();
    let ht = std::thread::spawn(move || {
        use std::io::Read;
        let mut err = err;
        let mut b = [0u8; 4096];
        while let Ok(n) = err.read(&mut b) {
            if n == 0 {
                break;
            }
            let mut e = eb.lock().unwrap();
            if e.len() < 400_000 {
                e.extend_from_slice(&b[..n]);
            }
        }
    });
    let (cur2, agg2, mc2) = (cur.clone(), agg.clone(), memcap.clone());
    let started2 = started.clone();
    let last_done = Arc::new(AtomicU64::new(u64::MAX));
    let ld2 = last_done.clone();
    let hr = std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let l = match l {
                Ok(l) => l,
                Err(_) => break,
            };
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "S" => {
                    let i = f[1].parse().unwrap_or(u64::MAX);
                    let cpu = proc_state(pid).map(|x| x.0).unwrap_or(0.0);
                    *started2.lock().unwrap() = (Instant::now(), cpu);
                    cur2.store(i, Ordering::SeqCst);
                }
                "E" if f.len() > 2 => {
                    let mut a = agg2.lock().unwrap();
                    a.cases += 1;
                    a.evals += f[2].parse::<u64>().unwrap_or(0);
                    ld2.store(f[1].parse().unwrap_or(u64::MAX), Ordering::SeqCst);
                    cur2.store(u64::MAX, Ordering::SeqCst);
                }
                "V" if f.len() > 3 => {
                    let mut a = agg2.lock().unwrap();
                    if a.viols.len() < 2000 {
                        a.viols.push((f[1].parse().unwrap_or(0), viol(normalize(&unesc(f[2])), unesc(f[3]))));
                    }
                }
                "F" if f.len() > 2 => {
                    *agg2.lock().unwrap().feats.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap_or(0);
                }
                "H" if f.len() > 1 => {
                    agg2.lock().unwrap().hashes.insert(u64::from_str_radix(f[1], 16).unwrap_or(0));
                }
                "X" if f.len() > 1 => {
                    let mut a = agg2.lock().unwrap();
                    if a.samples.len() < 12 {
                        a.samples.push(unesc(f[1]));
                    }
                }
                _ => {
                    if l.starts_with("MEMCAP") || l.starts_with("MEMBIG") {
                        *mc2.lock().unwrap() = Some(l.clone());
                    }
                }
            }
        }
    });
    // monitor
    let mut killed: Option<&'static str> = None;
    // (consecutive samples, cpu, context switches): counted in samples, so that a paused sandbox adds nothing
    let mut sleep_since: Option<(u64, f64, u64)> = None;
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(_) => break None,
        }
        if t0.elapsed() > budget {
            agg.lock().unwrap().timed_out = true;
            stop.store(true, Ordering::Relaxed);
        }
        if stop.load(Ordering::Relaxed) && killed.is_none() {
            // a case that has been running for long is a suspect: let the CPU and blocked monitors decide about it
            let suspect = cur.load(Ordering::SeqCst) != u64::MAX && started.lock().unwrap().0.elapsed().as_secs() >= 5;
            if !suspect || t0.elapsed() > budget + Duration::from_secs(100) {
                killed = Some("budget");
                let _ = ch.kill();
            }
        }
        if cur.load(Ordering::SeqCst) != u64::MAX && killed.is_none() {
            let (ts, cpu0) = *started.lock().unwrap();
            if ts.elapsed().as_secs() >= 3 {
                if let Some((cpu, asleep, sw)) = proc_state(pid) {
                    if cpu - cpu0 > cpul {
                        killed = Some("cpu");
                        let _ = ch.kill();
                    }
                    if asleep {
                        match sleep_since {
                            Some((s, c, w)) if c == cpu && w == sw => {
                                sleep_since = Some((s + 1, c, w));
                                if s + 1 >= BLOCKED_SECS * 50 && killed.is_none() {
                                    killed = Some("blocked");
                                    let _ = ch.kill();
                                }
                            }
                            _ => sleep_since = Some((0, cpu, sw)),
                        }
                    } else {
                        sleep_since = None;
                    }
                }
            } else {
                sleep_since = None;
            }
        } else {
            sleep_since = None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = hr.join();
    let _ = ht.join();
    let c = cur.load(Ordering::SeqCst);
    let errs = String::from_utf8_lossy(&errbuf.lock().unwrap()).to_string();
    if killed == Some("budget") {
        return end;
    }
    let ok = status.map(|s| s.success()).unwrap_or(false);
    if ok && c == u64::MAX {
        return end;
    }
    let idx = if c != u64::MAX { c } else { last_done.load(Ordering::SeqCst) };
    if idx == u64::MAX {
        agg.lock().unwrap().errors.push(format!("worker ended {:?} before its first case: {}", status, tail(&errs)));
        stop.store(true, Ordering::Relaxed);
        return end;
    }
    let v = match killed {
        Some("cpu") => viol("runaway: case exceeded the CPU bound", format!("case used more than {} s of CPU time without finishing", cpul)),
        Some("blocked") => viol("blocked: every thread of the process is asleep and nothing can wake it", format!("no thread ran for {} s", BLOCKED_SECS)),
        _ => {
            if let Some(m) = memcap.lock().unwrap().clone() {
                viol(if m.starts_with("MEMBIG") { "memory: one odd-sized request above a quarter of a gigabyte by a decoder of normal size" } else { "memory: heap use exceeded the bound" }, m)
            } else if errs.contains("ThreadSanitizer") || errs.contains("AddressSanitizer") || errs.contains("LeakSanitizer") || errs.contains("Undefined Behavior") {
                let sig = errs.lines().find(|l| l.contains("SUMMARY") || l.contains("Undefined Behavior")).unwrap_or("sanitizer report").to_string();
                viol(format!("sanitizer: {}", normalize(&sig)), tail(&errs))
            } else {
                viol(format!("process died: {}", status.map(|s| s.to_string()).unwrap_or_default()), tail(&errs))
            }
        }
    };
    {
        let mut a = agg.lock().unwrap();
        a.viols.push((idx, v));
        a.cases += 1;
    }
    idx + step
}
fn tail(s: &str) -> String {
    let s = s.trim_end();
    let n = s.len().saturating_sub(6000);
    let mut k = n;
    while k < s.len() && !s.is_char_boundary(k) {
        k += 1;
    }
    s[k..].to_string()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
