//! C21: the command line tool, run as a process.
use super::MB;
use crate::cmds;
use crate::drive::{decode_simple, first_diff, End, Sched};
use crate::gen;
use crate::pool::*;
use crate::rng::{fnv, mix, Rng};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn exe() -> PathBuf {
    match std::env::var("VH_CLI") {
        Ok(p) => p.into(),
        Err(_) => std::env::current_exe().unwrap().parent().unwrap().parent().unwrap().join("cli/release/divans"),
    }
}
enum In {
    File(PathBuf),
    /// bytes written in pieces
    Pipe(Vec<u8>, Vec<usize>),
    Nothing,
}
enum Out {
    Pipe,
    /// a reader that goes away after this many bytes
    Broken(usize),
    /// a full device
    Full,
    Nothing,
}
struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
}
impl Ran {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
    fn how(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {}, stderr {:?}", c, self.err.chars().take(200).collect::<String>()),
            (_, s) => format!("signal {:?}, stderr {:?}", s, self.err.chars().take(200).collect::<String>()),
        }
    }
}
fn run(args: &[String], dir: &Path, i: In, o: Out) -> Result<Ran, Viol> {
    let show = format!("divans {}", args.join(" "));
    let mut c = Command::new(exe());
    c.args(args).current_dir(dir).stderr(Stdio::piped()).env_clear();
    let mut feed = None;
    match i {
        In::File(p) => {
            c.stdin(std::fs::File::open(p).unwrap());
        }
        In::Pipe(d, s) => {
            c.stdin(Stdio::piped());
            feed = Some((d, s));
        }
        In::Nothing => {
            c.stdin(Stdio::null());
        }
    }
    match o {
        Out::Pipe | Out::Broken(_) => c.stdout(Stdio::piped()),
        Out::Full => c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
        Out::Nothing => c.stdout(Stdio::null()),
    };
    let mut ch = c.spawn().map_err(|e| viol("the tool does not start", format!("{:?}: {}", exe(), e)))?;
    let mut hs = vec![];
    if let Some((d, s)) = feed {
        let mut w = ch.stdin.take().unwrap();
        hs.push(std::thread::spawn(move || {
            let mut p = 0;
            let mut k = 0;
            while p < d.len() {
                let n = s[k % s.len()].clamp(1, d.len() - p);
                k += 1;
                if w.write_all(&d[p..p + n]).is_err() {
                    break;
                }
                p += n;
                if k < 40 {
                    std::thread::yield_now();
                }
            }
        }));
    }
    let out = ch.stdout.take().map(|mut s| {
        let lim = if let Out::Broken(n) = o { n } else { usize::MAX };
        std::thread::spawn(move || {
            let mut v = vec![];
            if lim == usize::MAX {
                let _ = s.read_to_end(&mut v);
            } else {
                let _ = s.take(lim as u64).read_to_end(&mut v);
            }
            v
        })
    });
    let err = {
        let mut s = ch.stderr.take().unwrap();
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = s.read_to_end(&mut v);
            String::from_utf8_lossy(&v).to_string()
        })
    };
    // the watch over it: asleep for good, or endless
    let mut still: Option<(f64, u64, u32)> = None;
    let mut polls = 0u32;
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        polls += 1;
        std::thread::sleep(std::time::Duration::from_micros(if polls < 200 { 500 } else { 5000 }));
        if polls > 400 {
            if let Some((cpu, asleep, sw)) = proc_state(ch.id()) {
                if cpu > 60.0 {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err(viol("the tool does not end (60 s of CPU time)", show));
                }
                still = match still {
                    Some((c, w, n)) if asleep && c == cpu && w == sw => Some((c, w, n + 1)),
                    _ => Some((cpu, sw, 0)),
                };
                if still.unwrap().2 > 2000 {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err(viol("the tool hangs: no thread of it ran for 10 s", show));
                }
            }
        }
    };
    let out = out.map(|h| h.join().unwrap()).unwrap_or_default();
    let err = err.join().unwrap();
    for h in hs {
        let _ = h.join();
    }
    Ok(Ran { code: st.code(), signal: st.signal(), out, err })
}
fn sizes(r: &mut Rng) -> Vec<usize> {
    (0..r.range(1, 4)).map(|_| r.logu(1, 70_000)).collect()
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn speed(r: &mut Rng) -> String {
    if r.bool() {
        (*r.pick(&["GEOLOGIC", "GLACIAL", "MUD", "SLOW", "MED", "FAST", "PLANE", "ROCKET"])).to_string()
    } else {
        format!("{},{}", r.logu(1, 0x3fff), r.logu(16, 0x4000))
    }
}
/// documented compression options
fn options(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let q = if n < 8000 && r.chance(1, 4) { r.range(9, 11) } else { r.range(0, 9) };
    match r.us(10) {
        0 if n < 3000 => {}
        1 if n < 8000 => v.push((*r.pick(&["-q9.5", "-q9.5x"])).into()),
        _ => v.push(format!("-{}{}", *r.pick(&["q", "q=", "quality="]), q)),
    }
    let k = r.us(6);
    for _ in 0..k {
        v.push(match r.us(16) {
            0 => format!("-w{}", r.range(10, 24)),
            1 => format!("-window={}", r.range(10, 24)),
            2 => format!("-lgwin{}{}", if r.bool() { "=" } else { "" }, r.range(10, 24)),
            3 => (*r.pick(&["-cm", "-contextmap", "-nocm", "-nocontextmap"])).into(),
            4 => (*r.pick(&["-nostride", "-s", "-stride"])).into(),
            5 => format!("-stride={}", r.range(1, 8)),
            6 => (*r.pick(&["-utf8", "-msb", "-lsb", "-sign"])).into(),
            7 => (*r.pick(&["-findprior", "-defaultprior", "-findspeed"])).into(),
            8 => format!("-mixing={}", r.us(4)),
            9 => format!("-speed={}", speed(r)),
            10 => format!("-speedlow={}", speed(r)),
            11 => format!("-cmspeed={}", speed(r)),
            12 => format!("-cmspeedlow={}", speed(r)),
            13 => format!("-bytescore={}", r.us(2049)),
            14 => (*r.pick(&["-O0", "-O", "-O1", "-O2"])).into(),
            _ => format!("-{}{}", *r.pick(&["p", "priordepth=", "p="]), r.us(16)),
        });
    }
    for i in (1..v.len()).rev() {
        let j = r.us(i + 1);
        v.swap(i, j);
    }
    v
}
fn dec_options(r: &mut Rng) -> Vec<String> {
    let mut v = vec![];
    if r.bool() {
        v.push("-serial".to_string());
    }
    if r.chance(1, 3) {
        v.push(format!("-bs{}", if r.bool() { r.us(20) } else { r.logu(1, 100_000) }));
    }
    v
}
fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}
fn quoted(d: &[u8]) -> String {
    let mut s = String::from("\"");
    for b in d {
        match b {
            b'\n' => s += "\\n",
            b'\r' => s += "\\r",
            b'\t' => s += "\\t",
            b'"' => s += "\\\"",
            b'\\' => s += "\\\\",
            b'\'' => s += "\\'",
            b' ' => s += "\\x20", // a command is cut into words at blanks
            0x21..=0x7e => s.push(*b as char),
            _ => s += &format!("\\x{:02x}", b),
        }
    }
    s + "\""
}
fn list<T: std::fmt::Display>(x: &[T]) -> String {
    x.iter().map(|v| format!(" {}", v)).collect()
}
/// commands in the text form the tool reads
fn text(r: &mut Rng, window: usize, len: usize, cs: &[cmds::Cmd]) -> String {
    let mut t = format!("window {} len {}\n", window, len);
    for c in cs {
        t += &match c {
            cmds::Cmd::Lit(d, h) => {
                let name = if *h { "rndins" } else { "insert" };
                if d.is_empty() {
                    format!("{} 0", name)
                } else {
                    format!("{} {} {}", name, d.len(), if r.chance(1, 3) { quoted(d) } else { hex(d) })
                }
            }
            cmds::Cmd::Copy { distance, num } => format!("copy {} from {}{}", num, distance, if r.bool() { " ctx 2" } else { "" }),
            cmds::Cmd::Dict { size, transform, fin, id } => format!("dict {} word {},{} {} func {} {} ctx 3", fin, size, id, "00", transform, "00"),
            cmds::Cmd::BsC(t) => format!("ctype {}", t),
            cmds::Cmd::BsD(t) => format!("dtype {}", t),
            cmds::Cmd::BsL(t, s) => format!("ltype {} {}", t, s),
            cmds::Cmd::Pred(p) => {
                let mut s = format!("prediction {}", ["lsb6", "msb6", "utf8", "sign"][p.mode as usize & 3]);
                if !p.lit.is_empty() {
                    s += &format!(" lcontextmap{}", list(&p.lit));
                }
                if !p.dist.is_empty() {
                    s += &format!(" dcontextmap{}", list(&p.dist));
                }
                if !p.bare {
                    let m: Vec<u8> = p.mixing.iter().map(|x| x % 9).collect();
                    let n = if r.bool() { m.len() } else { r.us(m.len()) };
                    s += &format!(" mixingvalues{}", list(&m[..n]));
                    for k in ["cmspeedinc", "cmspeedmax", "stspeedinc", "stspeedmax", "mxspeedinc", "mxspeedmax"] {
                        if r.bool() {
                            s += &format!(" {} {} {}", k, r.us(16385), r.us(16385));
                        }
                    }
                }
                s
            }
        };
        t += if r.chance(1, 12) { "\r\n" } else { "\n" };
    }
    t
}
fn is_magic(d: &[u8]) -> bool {
    d.len() >= 4 && d[..4] == [0xff, 0xe5, 0x8c, 0x9f]
}
fn case(c: &mut Case) -> Result<(), Viol> {
    let mut rr = c.rng.clone();
    let r = &mut rr;
    let dir = Scratch(std::env::temp_dir().join(format!("vh-c21-{}-{}", std::process::id(), c.idx)));
    let _ = std::fs::remove_dir_all(&dir.0);
    std::fs::create_dir_all(&dir.0).unwrap();
    let s = |x: &str| x.to_string();
    let f = |n: &str| dir.0.join(n);
    let put = |n: &str, d: &[u8]| std::fs::write(f(n), d).unwrap();
    let what = r.us(10);
    c.eval(1);
    if what < 6 {
        // round trip
        let max = if r.chance(1, 8) { 200_000 } else { 6000 };
        let (mut d, mut fam) = gen::data(r, max);
        if r.chance(1, 40) {
            d.truncate(r.us(40));
            fam = "short";
        }
        if r.chance(1, 8) {
            // data that begins like a compressed file, or nearly so
            let mut m = vec![0xff, 0xe5, 0x8c, 0x9f];
            if r.bool() {
                m.truncate(r.range(1, 4));
            } else {
                m[r.us(4)] ^= 1 << r.us(8);
            }
            m.extend_from_slice(&d);
            d = m;
            c.seen("data with the beginning of a compressed file");
        }
        let mut args = options(r, d.len());
        let nobrotli = r.chance(1, 4);
        let flag = r.us(3);
        if nobrotli {
            args.push(s("-nobrotli"));
        } else if d.len() > 20_000 {
            args.retain(|a| !a.starts_with("-q"));
            args.push(s("-q5"));
        }
        if is_magic(&d) || flag > 0 {
            args.insert(r.us(args.len() + 1), s("-c"));
        }
        if r.chance(1, 3) {
            args.push(format!("-bs{}", r.logu(1, 100_000)));
        }
        if r.chance(1, 4) {
            args.push(s("-serial"));
        }
        put("in", &d);
        let piped = r.us(3);
        let i = match piped {
            0 => {
                args.push(s("in"));
                args.push(s("z"));
                In::Nothing
            }
            1 => {
                args.push(s("in"));
                In::Nothing
            }
            _ if r.bool() => In::File(f("in")),
            _ => In::Pipe(d.clone(), sizes(r)),
        };
        let desc = format!("{} bytes {}: divans {}", d.len(), fam, args.join(" "));
        let x = run(&args, &dir.0, i, if piped == 0 { Out::Nothing } else { Out::Pipe })?;
        if !x.ok() {
            return Err(viol("compression fails", format!("{} [{}]", x.how(), desc)));
        }
        let z = if piped == 0 { std::fs::read(f("z")).unwrap_or_default() } else { x.out };
        c.seen(format!("compressed {}{}{}", ["file to file", "file to pipe", "pipe to pipe"][piped], if nobrotli { ", own match finder" } else { "" }, if flag > 0 { "" } else { ", unforced" }));
        for a in &args {
            if a.starts_with('-') {
                c.seen(format!("option {}", a.trim_end_matches(|c: char| c.is_ascii_digit() || c == ',' || c == '=').trim_end_matches('=')));
            }
        }
        if !d.is_empty() || !z.is_empty() {
            let y = decode_simple(&z, false, d.len() + 100_000);
            if y.end != End::Success || y.out != d {
                return Err(viol("the compressed file does not decode to the data", format!("{:?} {} [{}]", y.end, first_diff(&d, &y.out), desc)));
            }
        }
        put("z", &z);
        let n = r.range(1, 3);
        for _ in 0..n {
            let mut a = dec_options(r);
            let reco = r.chance(1, 3);
            if !reco {
                a.insert(0, s("-d"));
                if r.chance(1, 4) {
                    a.push(s(*r.pick(&["-skipcrc", "-nocrc"])));
                }
            }
            let piped = r.us(4);
            let i = match piped {
                0 => {
                    a.push(s("z"));
                    a.push(s("out"));
                    In::Nothing
                }
                1 => {
                    a.push(s("z"));
                    In::Nothing
                }
                2 => In::File(f("z")),
                _ => In::Pipe(z.clone(), sizes(r)),
            };
            let _ = std::fs::remove_file(f("out"));
            let y = run(&a, &dir.0, i, if piped == 0 { Out::Nothing } else { Out::Pipe })?;
            let o = if piped == 0 { std::fs::read(f("out")).unwrap_or_default() } else { y.out.clone() };
            if !y.ok() || o != d {
                return Err(viol(
                    if y.ok() { "decompression gives other bytes with exit status 0" } else { "decompression fails" },
                    format!("{}, {} [divans {} after {}]", y.how(), first_diff(&d, &o), a.join(" "), desc),
                ));
            }
            c.seen(format!("decompressed {}{}", if reco { "by recognition" } else { "by flag" }, if a.iter().any(|x| x == "-serial") { ", serial" } else { "" }));
        }
        c.distinct(mix(fnv(&z)));
        // with no room for the output, neither may claim success
        if r.chance(1, 3) {
            let (args, name) = if r.bool() { (vec![s("-c"), s("-q2"), s("in")], "compressing") } else { (vec![s("-d"), s(if r.bool() { "-serial" } else { "-bs999" }), s("z")], "decompressing") };
            if name == "compressing" || !d.is_empty() {
                let y = match r.us(3) {
                    0 => {
                        let mut a = args.clone();
                        a.push(s("/dev/full"));
                        run(&a, &dir.0, In::Nothing, Out::Nothing)?
                    }
                    _ => run(&args, &dir.0, In::Nothing, Out::Full)?,
                };
                if y.ok() {
                    return Err(viol(format!("exit status 0 although the output could not be written ({})", name), format!("{} bytes: divans {} >/dev/full", d.len(), args.join(" "))));
                }
                c.seen(format!("full device noticed, {}", name));
            }
        }
        if c.idx < 8 {
            c.sample = Some(format!("{} -> {}", desc, z.len()));
        }
    } else if what < 8 {
        // damaged and foreign input
        let (d, _) = gen::data(r, 5000);
        put("in", &d);
        let q = format!("-q{}", r.range(2, 7));
        let x = run(&[s("-c"), q, s("in")], &dir.0, In::Nothing, Out::Pipe)?;
        let z = x.out;
        let mut bad = z.clone();
        let how = match r.us(5) {
            0 => {
                let n = r.us(bad.len().max(1));
                bad.truncate(n);
                "truncated"
            }
            1 => {
                let n = bad.len() - 1 - r.us(8.min(bad.len()));
                bad.truncate(n);
                "truncated in the trailer"
            }
            2 => {
                let p = 16 + r.us(bad.len() - 16);
                let p = p.min(bad.len() - 1);
                bad[p] ^= 1 << r.us(8);
                "one bit flipped"
            }
            3 => {
                bad = (0..r.logu(1, 3000)).map(|_| r.byte()).collect();
                bad[0] = 1;
                "foreign"
            }
            _ => {
                bad = vec![];
                "empty"
            }
        };
        put("bad", &bad);
        let mut a = dec_options(r);
        let reco = bad.len() >= 16 && is_magic(&bad) && r.chance(1, 3);
        if !reco {
            a.insert(0, s("-d"));
        }
        let piped = r.us(3);
        let i = match piped {
            0 => {
                a.push(s("bad"));
                a.push(s("out"));
                In::Nothing
            }
            1 => {
                a.push(s("bad"));
                In::Nothing
            }
            _ => In::Pipe(bad.clone(), sizes(r)),
        };
        let y = run(&a, &dir.0, i, if piped == 0 { Out::Nothing } else { Out::Pipe })?;
        let o = if piped == 0 { std::fs::read(f("out")).unwrap_or_default() } else { y.out.clone() };
        c.seen(format!("{} input{}: {}", how, if reco { " by recognition" } else { "" }, if y.ok() { "exit status 0, all the data" } else { "refused" }));
        c.distinct(mix(fnv(&bad)));
        if y.ok() && (o != d || how != "one bit flipped") {
            return Err(viol(format!("{} input decompressed with exit status 0", how), format!("{} bytes of {}: {} [divans {}]", bad.len(), z.len(), first_diff(&d, &o), a.join(" "))));
        }
    } else if what < 9 {
        // commands in text form
        let lg = r.range(10, 24);
        let g = cmds::G { maxdist: (1 << lg) - 1, maxout: r.logu(1, 60_000), maxcmds: 150, modes: true, empty: true };
        let (cs, want) = cmds::gen(r, &g);
        let t = text(r, lg, want.len(), &cs);
        put("ir", t.as_bytes());
        let opt = options(r, 1_000_000);
        let mut a = opt.clone();
        a.push(s("-i"));
        let piped = r.us(3);
        let i = match piped {
            0 => {
                a.push(s("ir"));
                a.push(s("z"));
                In::Nothing
            }
            1 => {
                a.push(s("ir"));
                In::Nothing
            }
            _ => In::Pipe(t.clone().into_bytes(), sizes(r)),
        };
        let x = run(&a, &dir.0, i, if piped == 0 { Out::Nothing } else { Out::Pipe })?;
        let desc = format!("{} commands for {} bytes, window {}: divans {}", cs.len(), want.len(), lg, a.join(" "));
        if !x.ok() {
            return Err(viol("compressing commands fails", format!("{} [{}]", x.how(), desc)));
        }
        let z = if piped == 0 { std::fs::read(f("z")).unwrap_or_default() } else { x.out };
        put("z", &z);
        let y = run(&[s("-d"), s("z"), s("out")], &dir.0, In::Nothing, Out::Nothing)?;
        let o = std::fs::read(f("out")).unwrap_or_default();
        if !y.ok() || o != want {
            return Err(viol("compressed commands decompress to other bytes", format!("{} {} [{}]", y.how(), first_diff(&want, &o), desc)));
        }
        // and interpreted directly
        let mut a = vec![s("-d"), s("--recode")];
        let i = match r.us(2) {
            0 => {
                a.push(s("ir"));
                In::Nothing
            }
            _ => In::Pipe(t.clone().into_bytes(), sizes(r)),
        };
        let y = run(&a, &dir.0, i, Out::Pipe)?;
        if !y.ok() || y.out != want {
            return Err(viol("interpreted commands give other bytes", format!("{} {} [{}]", y.how(), first_diff(&want, &y.out), desc)));
        }
        c.seen("commands compressed, decompressed and interpreted");
        c.distinct(mix(fnv(t.as_bytes())));
        // a line it cannot understand, or one that denotes nothing
        let mut l: Vec<String> = t.lines().map(|x| x.to_string()).collect();
        let at = 1 + r.us(l.len());
        let (bad, how) = match r.us(12) {
            0 => (s("nonsense 1 2 3"), "unknown command"),
            1 => (format!("copy {} from", r.range(1, 9)), "copy without distance"),
            2 => (s("insert 3 6162"), "insert of another length"),
            3 => (s("insert 1 6g"), "insert with bad hex"),
            4 => (s("insert 1 \"ab\""), "insert with a longer text"),
            5 => (s("insert 1 616"), "insert with half a byte"),
            6 => (format!("dict 4 word {},0 func 0", 260 + r.us(20)), "dictionary word size beyond a byte"),
            7 => (format!("dict 4 word 4,0 func {}", 256 + r.us(100)), "dictionary transform beyond a byte"),
            8 => (s("copy 5 from x"), "copy from a word"),
            9 => (s("prediction loud"), "unknown prediction"),
            10 => (s("copy 99999999999 from 1"), "copy beyond 32 bits"),
            _ => (format!("ltype 1 {}", r.range(9, 300)), "stride above 8"),
        };
        l.insert(at, bad);
        put("bad", (l.join("\n") + "\n").as_bytes());
        for a in [vec![s("-i"), s("bad"), s("z2")], vec![s("-d"), s("--recode"), s("bad"), s("z3")]] {
            let y = run(&a, &dir.0, In::Nothing, Out::Nothing)?;
            if y.ok() {
                return Err(viol(format!("a command file with an error is processed with exit status 0: {}", how), format!("line {:?} [divans {}]", l[at], a.join(" "))));
            }
        }
        c.seen(format!("refused: {}", how));
    } else {
        // calls that cannot work
        let (d, _) = gen::data(r, 3000);
        put("in", &d);
        let x = run(&[s("-c"), s("-q3"), s("in"), s("z")], &dir.0, In::Nothing, Out::Nothing)?;
        if !x.ok() {
            return Err(viol("compression fails", x.how()));
        }
        let bad: (Vec<String>, &str) = match r.us(9) {
            0 => (vec![s("-c"), s("missing"), s("out")], "no such input"),
            1 => (vec![s("-d"), s("missing")], "no such input"),
            2 => (vec![s("-c"), s("in"), s("nowhere/out")], "output cannot be made"),
            3 => (vec![s("-c"), s("."), s("out")], "input is a directory"),
            4 => (vec![s("-c"), s("in"), s("out"), s("more")], "too many names"),
            5 => (vec![s("-q"), s("in"), s("out")], "quality without value"),
            6 => (vec![format!("-{}={}", *r.pick(&["speed", "cmspeed", "speedlow", "cmspeedlow"]), *r.pick(&["", "3", "x,y", "1", "99999,3", "FASTER"])), s("in"), s("out")], "bad speed"),
            7 => (vec![format!("-stride={}", *r.pick(&["0", "9", "x", ""])), s("in"), s("out")], "bad stride"),
            _ => (vec![s("-w"), s("in"), s("out")], "window without value"),
        };
        let y = run(&bad.0, &dir.0, In::Nothing, Out::Nothing)?;
        if y.ok() {
            return Err(viol(format!("exit status 0: {}", bad.1), format!("divans {}", bad.0.join(" "))));
        }
        c.seen(format!("refused: {}", bad.1));
        // the reader of the output goes away
        if d.len() > 200 {
            let y = run(&[s("-d"), s("-bs64"), s("z")], &dir.0, In::Nothing, Out::Broken(r.us(100)))?;
            // whether the tool notices depends on what the pipe still takes; it must end, which run() watches
            c.seen(format!("reader gone: {}", if y.ok() { "not noticed" } else { "noticed" }));
        }
        // a second name after "--" may look like an option
        let y = run(&[s("-d"), s("-serial"), s("--"), s("z"), s("-d")], &dir.0, In::Nothing, Out::Nothing)?;
        let o = std::fs::read(f("-d")).unwrap_or_default();
        if !y.ok() || o != d {
            return Err(viol("names after -- do not work", format!("{} {}", y.how(), first_diff(&d, &o))));
        }
        c.distinct(mix(fnv(bad.0.join(" ").as_bytes()) ^ fnv(&d)));
    }
    let _ = Sched::All;
    Ok(())
}
pub fn plan() -> Plan {
    Plan {
        prop: "C21",
        quick: 1200,
        thorough: 20_000,
        rule: "one evaluation = one scenario of the command line tool (3 to 8 processes): a round trip through files and pipes, damaged input, commands in text form, or a call that cannot work; distinct = distinct compressed or offered inputs",
        assumptions: &["the options -brotlistride, -advbrotlistride and -expbrotlistride are left out (they reach the dependency's panic recorded under C01)"],
        memcap: 6000 * MB,
        workers: 8,
        budget: 90,
        case,
    }
}
