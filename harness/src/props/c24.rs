//! C24: streams made by builds with different features, decoded by all the others.
use super::MB;
#[path = "../../feat/src/job.rs"]
mod job;
use crate::pool::*;
use crate::rng::{fnv, mix};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Duration;

/// (name, program) of every build that exists next to this one
fn builds() -> Vec<(String, PathBuf)> {
    let d: PathBuf = match std::env::var("VH_FEAT") {
        Ok(p) => p.into(),
        Err(_) => std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().join("feat"),
    };
    let mut v: Vec<_> = std::fs::read_dir(&d)
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| (e.file_name().to_string_lossy().to_string(), e.path().join("release/feat")))
        .filter(|(_, p)| p.exists())
        .collect();
    v.sort();
    v
}
/// what a build printed, or how it died
fn run(exe: &Path, args: &[String], dir: &Path) -> Result<Vec<String>, String> {
    let so = dir.join("stdout");
    let se = dir.join("stderr");
    let mut ch = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&so).unwrap())
        .stderr(std::fs::File::create(&se).unwrap())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut cpu = 0.0;
    let mut still = 0;
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if let Some((c, asleep, _)) = proc_state(ch.id()) {
            still = if asleep && c == cpu { still + 1 } else { 0 };
            cpu = c;
            if c > 60.0 || still > 3000 {
                let _ = ch.kill();
                let _ = ch.wait();
                return Err(format!("does not finish: {} s of CPU time, asleep {}", c, asleep));
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let o = String::from_utf8_lossy(&std::fs::read(&so).unwrap_or_default()).to_string();
    let lines: Vec<String> = o.lines().map(|x| x.to_string()).collect();
    if !st.success() || !o.contains("DONE") {
        let e = String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).to_string();
        return Err(format!("{}; stdout ends {:?}; stderr ends {:?}", st, lines.last(), e.lines().rev().take(3).collect::<Vec<_>>()));
    }
    Ok(lines)
}
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
const BATCH: u64 = 12;
fn case(c: &mut Case) -> Result<(), Viol> {
    // findspeed keeps a model for every speed and costs as much as all the others together
    let bs: Vec<_> = builds().into_iter().filter(|b| c.idx % 16 == 0 || !b.0.contains("findspeed")).collect();
    if bs.len() < 2 {
        c.seen("FEWER THAN TWO BUILDS");
        return Ok(());
    }
    let dir = Dir(std::env::temp_dir().join(format!("vh-c24-{}-{}", std::process::id(), c.idx)));
    std::fs::create_dir_all(&dir.0).unwrap();
    let ds = dir.0.to_string_lossy().to_string();
    let first = c.idx * BATCH;
    let jobs: Vec<job::Job> = (0..BATCH).map(|i| job::make(c.seed, first + i)).collect();
    for (k, (n, p)) in bs.iter().enumerate() {
        let a: Vec<String> = ["enc".into(), c.seed.to_string(), first.to_string(), BATCH.to_string(), ds.clone(), k.to_string()].into();
        match run(p, &a, &dir.0) {
            Err(e) => return Err(viol("a feature build dies compressing", format!("build [{}], jobs {}..{}: {}", n, first, first + BATCH, e))),
            Ok(l) => {
                if let Some(f) = l.iter().find(|x| x.starts_with("FAILED ")) {
                    return Err(viol("a feature build fails to compress", format!("build [{}]: {}", n, f)));
                }
            }
        }
    }
    // streams that differ, with the builds that made them
    let mut files: Vec<(String, usize, Vec<usize>)> = vec![];
    for (j, _) in jobs.iter().enumerate() {
        let mut m: BTreeMap<Vec<u8>, Vec<usize>> = BTreeMap::new();
        for k in 0..bs.len() {
            let f = format!("{}/{}.{}", ds, first + j as u64, k);
            match std::fs::read(&f) {
                Ok(s) => m.entry(s).or_default().push(k),
                Err(e) => return Err(viol("a feature build wrote no stream", format!("build [{}] {}: {}", bs[k].0, f, e))),
            }
        }
        c.add("streams", bs.len() as u64);
        c.add("streams that differ between builds", m.len() as u64 - 1);
        for (s, ks) in m {
            c.distinct(mix(fnv(&s)));
            files.push((format!("{}.{}", first + j as u64, ks[0]), j, ks));
        }
    }
    for (n, p) in bs.iter() {
        let mut a: Vec<String> = vec!["dec".into(), ds.clone()];
        a.extend(files.iter().map(|f| f.0.clone()));
        let l = match run(p, &a, &dir.0) {
            Ok(l) => l,
            Err(e) => return Err(viol("a feature build dies decompressing", format!("build [{}], jobs {}..{}: {}", n, first, first + BATCH, e))),
        };
        let l: Vec<&String> = l.iter().filter(|x| x.starts_with("DEC ")).collect();
        for (f, j, ks) in &files {
            let g = &jobs[*j];
            let mine: Vec<&&String> = l.iter().filter(|x| x.split(' ').nth(1) == Some(f)).collect();
            if mine.len() != 2 {
                return Err(viol("a feature build skipped a stream", format!("build [{}], {}: {} reports", n, f, mine.len())));
            }
            for (t, x) in mine.iter().enumerate() {
                let want = format!("DEC {} success {} {:016x}", f, g.data.len(), fnv(&g.data));
                if ***x != want {
                    return Err(viol(
                        "a build does not read a stream another build wrote",
                        format!("written by [{}], read by [{}] {}: {}: got {:?}, expected {:?}", ks.iter().map(|k| bs[*k].0.clone()).collect::<Vec<_>>().join(", "), n, ["serial", "threaded"][t], g.desc, x, want),
                    ));
                }
                c.eval(ks.len() as u64);
                c.add("decodes of an equal stream counted for each build that wrote it", ks.len() as u64);
            }
        }
        c.seen(format!("read by [{}]", n));
    }
    // the models the streams rest on
    let mut base: Vec<String> = vec![];
    for (k, (n, p)) in bs.iter().enumerate() {
        let a: Vec<String> = ["model".into(), (c.seed ^ (c.idx << 20)).to_string(), if c.idx % 16 == 0 { "sweep" } else { "random" }.into()].into();
        let l = match run(p, &a, &dir.0) {
            Ok(l) => l,
            Err(e) => return Err(viol("the models of a feature build die", format!("build [{}]: {}", n, e))),
        };
        let l: Vec<String> = l.into_iter().filter(|x| x.starts_with("MODEL ")).collect();
        c.add("model histories compared between builds", l.len() as u64);
        if k == 0 {
            base = l;
        } else if let Some((x, y)) = base.iter().zip(&l).find(|(x, y)| x != y) {
            return Err(viol("a build's models give other intervals", format!("[{}] {:?}, [{}] {:?}", bs[0].0, x, n, y)));
        }
        if c.idx % 16 == 0 {
            c.seen("models with every total from 64 to 24063");
        }
    }
    for g in &jobs {
        c.seen(["hybrid", "internal", "commands"][g.how]);
    }
    if c.idx < 4 {
        c.sample = Some(format!("{} builds [{}]; {}", bs.len(), bs.iter().map(|b| b.0.clone()).collect::<Vec<_>>().join(" | "), jobs[0].desc));
    }
    Ok(())
}
pub fn plan() -> Plan {
    Plan {
        prop: "C24",
        quick: 500,
        thorough: 12_000,
        rule: "one evaluation = one stream of one feature build decoded by another (or the same) build as a separate program, serial or threaded, length and hash compared with the data; a stream several builds wrote identically is decoded once per reader and counted for each writer; distinct = distinct streams",
        assumptions: &["feature sets that do not build with the installed stable toolchain (simd, external-literal-probability, threadlog, debug_entropy, no-stdlib) and blend, whose own tests fail, are not supported sets"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 60,
        case,
    }
}
