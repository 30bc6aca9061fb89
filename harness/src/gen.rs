//! Input data families. Each names the behaviour it is meant to reach.
use crate::rng::Rng;
use std::sync::OnceLock;

pub fn corpus() -> &'static [Vec<u8>] {
    static C: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = Vec::new();
        for n in ["alice29", "asyoulik", "random_then_unicode", "ends_with_truncated_dictionary"] {
            if let Ok(d) = std::fs::read(format!("/repo/testdata/{}", n)) {
                if !d.is_empty() {
                    v.push(d);
                }
            }
        }
        if v.is_empty() {
            let mut r = Rng::new(77);
            let words = ["the ", "quick ", "brown ", "fox ", "jumps ", "over ", "lazy ", "dog. ", "Alice ", "said, \"", "and\n"];
            let mut d = Vec::new();
            while d.len() < 150_000 {
                let w = *r.pick(&words);
                d.extend_from_slice(w.as_bytes());
            }
            v.push(d);
        }
        v
    })
}

pub const FAMILIES: &[&str] = &[
    "empty", "one", "run", "text", "random", "skewed", "period", "stride", "farcopy", "dictwords", "records", "utf8", "mutrep", "mixed", "nibble0", "ramp", "html",
];

pub fn gen_family(r: &mut Rng, fam: &str, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    match fam {
        "empty" => {}
        "one" => {
            for _ in 0..r.range(1, 9) {
                v.push(r.byte());
            }
        }
        "run" => {
            while v.len() < n {
                let b = r.byte();
                let l = r.logu(1, 5000);
                for _ in 0..l {
                    v.push(b);
                }
            }
        }
        "text" => {
            let c = corpus();
            let d = &c[r.us(c.len())];
            let start = r.us(d.len());
            let mut p = start;
            while v.len() < n {
                v.push(d[p]);
                p += 1;
                if p == d.len() {
                    p = 0;
                }
            }
        }
        "random" => {
            v.resize(n, 0);
            r.fill(&mut v);
        }
        "skewed" => {
            let k = r.range(2, 40);
            let alpha: Vec<u8> = (0..k).map(|_| r.byte()).collect();
            while v.len() < n {
                let mut i = 0;
                while i + 1 < k && r.chance(1, 2) {
                    i += 1;
                }
                v.push(alpha[i]);
            }
        }
        "period" => {
            let p = r.logu(1, 300);
            let mut pat = vec![0u8; p];
            r.fill(&mut pat);
            let mut i = 0;
            while v.len() < n {
                v.push(pat[i % p]);
                i += 1;
                if r.chance(1, 400) {
                    let k = r.us(p);
                    pat[k] = r.byte();
                }
            }
        }
        "stride" => {
            let p = r.range(1, 8);
            let mut st = vec![0u8; p];
            r.fill(&mut st);
            let step: Vec<u8> = (0..p).map(|_| if r.bool() { 0 } else { r.byte() & 3 }).collect();
            let noise = r.range(0, 8) as u64;
            let mut i = 0;
            while v.len() < n {
                let k = i % p;
                st[k] = st[k].wrapping_add(step[k]);
                let mut b = st[k];
                if noise > 0 && r.chance(noise, 16) {
                    b ^= r.byte() & 0x0f;
                }
                v.push(b);
                i += 1;
            }
        }
        "farcopy" => {
            // repeats at large distances, beyond small windows, plus short distance ones
            let seed_len = r.logu(16, 3000).min(n.max(16));
            v.resize(seed_len, 0);
            r.fill(&mut v);
            while v.len() < n {
                if r.chance(1, 3) {
                    for _ in 0..r.range(1, 40) {
                        let b = r.byte();
                        v.push(b);
                    }
                } else {
                    let d = if r.bool() { r.logu(1, v.len()) } else { r.range(1, v.len()) };
                    let l = r.logu(2, 600);
                    for _ in 0..l {
                        let b = v[v.len() - d];
                        v.push(b);
                    }
                }
            }
        }
        "dictwords" => {
            let dict = brotli_dict();
            while v.len() < n {
                let l = r.range(4, 24);
                let (off, bits) = (DICT_OFF[l], DICT_BITS[l]);
                let w = if bits == 0 { 0 } else { r.us(1 << bits) };
                let s = off as usize + w * l;
                let mut word: Vec<u8> = dict[s..s + l].to_vec();
                match r.us(6) {
                    0 => {
                        if word[0].is_ascii_lowercase() {
                            word[0] ^= 32;
                        }
                    }
                    1 => word.iter_mut().for_each(|c| {
                        if c.is_ascii_lowercase() {
                            *c ^= 32
                        }
                    }),
                    _ => {}
                }
                v.extend_from_slice(&word);
                v.extend_from_slice(*r.pick(&[&b" "[..], b", ", b"", b"=\"", b".", b"\n", b"ing ", b" of the "]));
            }
        }
        "records" => {
            let rl = r.range(3, 40);
            let mut ctr = r.u32();
            while v.len() < n {
                let mut rec = vec![0u8; rl];
                rec[..rl.min(4)].copy_from_slice(&ctr.to_le_bytes()[..rl.min(4)]);
                ctr = ctr.wrapping_add(r.below(4) as u32);
                for b in rec.iter_mut().skip(4) {
                    if r.chance(1, 5) {
                        *b = r.byte();
                    }
                }
                v.extend_from_slice(&rec);
            }
        }
        "utf8" => {
            let base = *r.pick(&[0x400u32, 0x600, 0x3040, 0x4e00, 0x1f600, 0xe0]);
            while v.len() < n {
                let c = char::from_u32(base + r.below(60) as u32).unwrap_or('x');
                let mut b = [0u8; 4];
                v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                if r.chance(1, 6) {
                    v.push(b' ');
                }
            }
        }
        "mutrep" => {
            let bl = r.logu(8, 4000);
            let mut b = vec![0u8; bl];
            r.fill(&mut b);
            while v.len() < n {
                v.extend_from_slice(&b);
                for _ in 0..r.range(0, 4) {
                    let k = r.us(bl);
                    b[k] = r.byte();
                }
            }
        }
        "nibble0" => {
            // high nibble constant or low nibble constant
            let hi = r.bool();
            let c = r.byte();
            while v.len() < n {
                let x = r.byte();
                v.push(if hi { (c & 0xf0) | (x & 0xf) } else { (x & 0xf0) | (c & 0xf) });
            }
        }
        "ramp" => {
            let s = r.byte() | 1;
            let mut x = r.byte();
            while v.len() < n {
                v.push(x);
                x = x.wrapping_add(s);
                if r.chance(1, 64) {
                    x = r.byte();
                }
            }
        }
        "html" => {
            let tags = ["<div class=\"", "</div>\n", "<a href=\"http://www.", ".com/\">", "</a>", "<p>", "</p>", "&nbsp;", "<table>", "function(", "return ", "2026-01-"];
            while v.len() < n {
                v.extend_from_slice(r.pick(&tags).as_bytes());
                if r.chance(1, 3) {
                    for _ in 0..r.range(1, 12) {
                        v.push(b'a' + r.us(26) as u8);
                    }
                }
            }
        }
        "mixed" => {
            let parts = r.range(2, 6);
            for _ in 0..parts {
                let f = FAMILIES[1 + r.us(FAMILIES.len() - 1)];
                if f == "mixed" {
                    continue;
                }
                let m = r.logu(1, (n / parts).max(1));
                let s = gen_family(r, f, m);
                v.extend_from_slice(&s);
                if v.len() > 50 && r.chance(1, 2) {
                    // a repeat of something earlier
                    let l = r.range(4, 50.min(v.len()));
                    let s = r.us(v.len() - l + 1);
                    let c = v[s..s + l].to_vec();
                    v.extend_from_slice(&c);
                }
            }
        }
        _ => unreachable!(),
    }
    if fam != "one" && v.len() > n {
        v.truncate(n);
    }
    v
}

/// returns data and the family name
pub fn data(r: &mut Rng, max: usize) -> (Vec<u8>, &'static str) {
    let fam = FAMILIES[r.us(FAMILIES.len())];
    let n = r.logu(1, max);
    (gen_family(r, fam, n), fam)
}
pub fn data_of(r: &mut Rng, fam: &str, n: usize) -> Vec<u8> {
    gen_family(r, fam, n)
}
/// data of at least about n/2 bytes (for window wrap tests)
pub fn big(r: &mut Rng, n: usize) -> (Vec<u8>, &'static str) {
    let fam = FAMILIES[2 + r.us(FAMILIES.len() - 2)];
    let m = r.range(n / 2, n);
    (gen_family(r, fam, m), fam)
}

pub const DICT_BITS: [u32; 25] = [0, 0, 0, 0, 10, 10, 11, 11, 10, 10, 10, 10, 10, 9, 9, 8, 7, 7, 8, 7, 7, 6, 6, 5, 5];
pub const DICT_OFF: [u32; 25] = [
    0, 0, 0, 0, 0, 4096, 9216, 21504, 35840, 44032, 53248, 63488, 74752, 87040, 93696, 100864, 104704, 106752, 108928, 113536, 115968, 118528, 119872, 121280, 122016,
];
pub fn brotli_dict() -> &'static [u8] {
    &brotli::dictionary::kBrotliDictionary[..]
}
