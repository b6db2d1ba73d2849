//! Generated logs and the whole-file reference detector.
use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

pub const THRESHOLD: f64 = 0.3;

/// 96 ordinary words, told apart by letters.
pub fn vocab(i: usize) -> String {
    let i = i % 96;
    let a = b"bdklmnprstvz"[i % 12] as char;
    let b = b"aeiouy"[i / 12 % 6] as char;
    if i < 72 {
        format!("{}{}ron", a, b)
    } else {
        format!("j{}{}lin", b, a)
    }
}

fn mixn(a: u64, b: u64) -> usize {
    (crate::engine::mix(a.wrapping_mul(0x9e3779b97f4a7c15) ^ crate::engine::mix(b)) >> 11) as usize
}

/// The k-th known line: five words of the first half of the vocabulary, and a varying number.
pub fn known(k: u32, salt: u32) -> String {
    let w: Vec<String> = (0..5).map(|i| vocab(mixn(k as u64, i) % 48)).collect();
    format!("{:02}:{:02} {} took {}", salt % 24, salt % 60, w.join(" "), salt % 10000)
}

/// The u-th unknown line: words of the second half.
pub fn unknown(u: u32, salt: u32) -> String {
    let w: Vec<String> = (0..5).map(|i| vocab(48 + mixn(u as u64 + 77, i) % 48)).collect();
    format!("{} {}", w.join(" "), salt % 1000)
}

/// A line sharing `shared` words with a known line.
pub fn mixed(k: u32, shared: u8) -> String {
    let w: Vec<String> = (0..5)
        .map(|i| if i < shared as u64 { vocab(mixn(k as u64, i) % 48) } else { vocab(48 + mixn(k as u64 + 5, i) % 48) })
        .collect();
    format!("10:11 {} took 12", w.join(" "))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Run {
    Known { k: u32, n: u16 },
    Dup { k: u32, n: u16 },
    New { u: u32, n: u16 },
    NewDup { u: u32, n: u16 },
    Mixed { k: u32, shared: u8 },
    Error { k: u32 },
    Blank(u8),
    /// known and unknown lines embedded in one physical line
    Embedded { k: u32, u: u32, first: bool },
    Single(u8),
    Long(u16),
    /// JSON looking content
    Object { k: u32, u: u32 },
    Text(String),
}

pub fn render_runs(runs: &[Run], base_n: u32) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let mut salt = 0u32;
    let m = base_n.max(1);
    let mut push = |s: String, out: &mut Vec<u8>| {
        out.extend(s.as_bytes());
        out.push(b'\n');
    };
    for run in runs {
        salt = salt.wrapping_mul(31).wrapping_add(17);
        match run {
            Run::Known { k, n } => {
                for i in 0..*n as u32 {
                    push(known((k + i) % m, salt + i), &mut out)
                }
            }
            Run::Dup { k, n } => {
                for i in 0..*n as u32 {
                    push(known(k % m, salt + i), &mut out)
                }
            }
            Run::New { u, n } => {
                for i in 0..*n as u32 {
                    push(unknown(u + i, salt + i), &mut out)
                }
            }
            Run::NewDup { u, n } => {
                for i in 0..*n as u32 {
                    push(unknown(*u, salt + i), &mut out)
                }
            }
            Run::Mixed { k, shared } => push(mixed(k % m, *shared), &mut out),
            Run::Error { k } => push(format!("{} error: failed", known(k % m, salt)), &mut out),
            Run::Blank(n) => {
                for _ in 0..*n {
                    push(String::new(), &mut out)
                }
            }
            Run::Embedded { k, u, first } => {
                let (a, b) = (known(k % m, salt), unknown(*u, salt));
                push(if *first { format!("{}\\n{}", b, a) } else { format!("{}\\n{}", a, b) }, &mut out)
            }
            Run::Single(i) => push(vocab(*i as usize), &mut out),
            Run::Long(n) => push("y ".repeat(*n as usize), &mut out),
            Run::Object { k, u } => push(
                format!("{{\"name\": \"{}\", \"more\": [\"{}\", {}], \"z\": {}}}", known(k % m, salt), unknown(*u, salt), unknown(u + 1, salt), known((k + 1) % m, 4)),
                &mut out,
            ),
            Run::Text(t) => push(t.clone(), &mut out),
        }
    }
    out
}

fn small_run() -> impl Strategy<Value = Run> {
    prop_oneof![
        4 => (0u32..60, 1u16..5).prop_map(|(k, n)| Run::Known { k, n }),
        2 => (0u32..60, 1u16..5).prop_map(|(k, n)| Run::Dup { k, n }),
        5 => (0u32..40, 1u16..3).prop_map(|(u, n)| Run::New { u, n }),
        2 => (0u32..40, 1u16..4).prop_map(|(u, n)| Run::NewDup { u, n }),
        2 => (0u32..60, 0u8..6).prop_map(|(k, shared)| Run::Mixed { k, shared }),
        1 => (0u32..60).prop_map(|k| Run::Error { k }),
        1 => (1u8..4).prop_map(Run::Blank),
        1 => (0u32..60, 0u32..40, any::<bool>()).prop_map(|(k, u, first)| Run::Embedded { k, u, first }),
        1 => (0u8..96).prop_map(Run::Single),
        1 => (2990u16..3010).prop_map(Run::Long),
        1 => (0u32..60, 0u32..40).prop_map(|(k, u)| Run::Object { k, u }),
        1 => (0usize..TEXTS.len()).prop_map(|i| Run::Text(TEXTS[i].to_string())),
    ]
}

/// Lines that only resemble the banner of the tool's own task, and lines of other scripts.
const TEXTS: [&str; 22] = [
    "10:11 données reçues à l'échelle voulue ✓ début",
    "10:11 Ошибка соединения с сервером базы",
    "10:11 接続に失敗しました 再試行します 🚨🚨",
    "10:11 task [log-classify : run] started",
    "10:11 TASK [ log-classify : run] started",
    "10:11 TASK[log-classify : run] started",
    "10:11 TASK [log-classif : run] started",
    "10:11 PLAY [log-classify : run] started",
    "10:11 TASK [fetch-output : log-classify] started",
    "10:11 TASK [log_classify : run] started",
    "10:11 running log-classify on everything",
    "10:11 TASK [upload-logs : log-classify",
    "10:11 binary \0 content \0\0 found",
    "10:11 \u{1b}[31mred alert\u{1b}[0m raised\u{7}",
    "10:11 carriage return at the end\r",
    "10:11 progress 10%\rprogress 20%\rdone now",
    "\u{feff}10:11 byte order mark first",
    "10:11 vertical\u{b}tab form\u{c}feed unit\u{1f}separator next\u{85}line para\u{2029}graph",
    "\t  ",
    "4711 numbered entry without clock",
    "  20220102 indented entry without clock",
    "7",
];

/// Small logs, logs around the chunk size of 512 unique lines, and logs of mostly repeated lines.
pub fn runs(with_unknown: bool) -> impl Strategy<Value = Vec<Run>> {
    let small = proptest::collection::vec(small_run(), 0..14);
    let fill = prop_oneof![
        3 => (0u32..900, 505u16..516).prop_map(|(k, n)| Run::Known { k, n }),
        1 => (0u32..900, 1u16..1100).prop_map(|(k, n)| Run::Known { k, n }),
        1 => (0u32..900, prop_oneof![505u16..516, 1u16..100]).prop_map(|(u, n)| Run::New { u, n }),
        1 => (0u32..900, prop_oneof![5100u16..5125, 1u16..5200]).prop_map(|(k, n)| Run::Dup { k, n }),
    ];
    let big = (
        proptest::collection::vec(small_run(), 0..6),
        fill.clone(),
        proptest::collection::vec(small_run(), 0..8),
        proptest::option::of(fill),
        proptest::collection::vec(small_run(), 0..5),
    )
        .prop_map(|(a, f, b, g, c)| {
            let mut v = a;
            v.push(f);
            v.extend(b);
            v.extend(g);
            v.extend(c);
            v
        });
    prop_oneof![3 => small, 2 => big].prop_map(move |v| {
        if with_unknown {
            v
        } else {
            v.into_iter()
                .filter(|r| matches!(r, Run::Known { .. } | Run::Dup { .. } | Run::Blank(_)) || matches!(r, Run::Long(n) if *n > 3000))
                .collect()
        }
    })
}

/// A baseline of n known lines, spread over several sources.
pub fn baseline_sources(n: u32, sources: u8, dups: bool) -> Vec<Vec<u8>> {
    let sources = sources.max(1) as u32;
    (0..sources)
        .map(|s| {
            let mut out = vec![];
            for k in 0..n {
                if k % sources == s || (dups && mixn(k as u64, 3) % 5 == 0) {
                    out.extend(known(k, 3 * k + s).as_bytes());
                    // the baselines of CI jobs hold the banner, blank and split lines
                    match mixn(k as u64, n as u64) % (n as usize + 20) {
                        0 => out.extend(b"\n10:11 TASK [log-classify : Fetch]\n"),
                        1..=3 => out.extend(b"\\n"),
                        4 => out.extend(b"\n\n\n"),
                        5 => {
                            out.push(b'\n');
                            out.extend(b"y ".repeat(3100));
                            out.push(b'\n')
                        }
                        _ => out.push(b'\n'),
                    }
                }
            }
            out
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Found {
    pub line: String,
    pub pos: usize,
    pub distance: f64,
    pub before: Vec<String>,
    pub after: Vec<String>,
}

/// Sets of tokens as bit masks.
#[derive(Default)]
pub struct TokenSets {
    ids: HashMap<String, usize>,
}

type Mask = [u64; 6];

impl TokenSets {
    pub fn mask(&mut self, tokens: &str) -> Mask {
        let mut m = [0u64; 6];
        for w in tokens.split(' ') {
            let n = self.ids.len();
            let id = *self.ids.entry(w.to_string()).or_insert(n);
            assert!(id < 384, "vocabulary too big");
            m[id / 64] |= 1 << (id % 64);
        }
        m
    }
}

pub fn cosine(a: &Mask, b: &Mask) -> f64 {
    let count = |f: &dyn Fn(usize) -> u64| (0..6).map(|i| f(i).count_ones()).sum::<u32>() as f64;
    let inter = count(&|i| a[i] & b[i]);
    inter / (count(&|i| a[i]) * count(&|i| b[i])).sqrt()
}

pub struct Reference {
    sets: TokenSets,
    baseline: Vec<Mask>,
    exact: HashSet<String>,
}

impl Reference {
    pub fn new(sources: &[Vec<u8>], json: bool) -> Reference {
        let mut sets = TokenSets::default();
        let mut baseline = vec![];
        let mut exact = HashSet::new();
        for s in sources {
            for p in reference_split(s, json) {
                let t = logreduce_tokenizer::process(std::str::from_utf8(&p.bytes).expect("utf8 baseline"));
                if exact.insert(t.clone()) {
                    baseline.push(sets.mask(&t));
                }
            }
        }
        Reference { sets, baseline, exact }
    }

    fn distance(&mut self, tokens: &str) -> f64 {
        if self.exact.contains(tokens) {
            return 0.0;
        }
        let m = self.sets.mask(tokens);
        1.0 - self.baseline.iter().map(|b| cosine(&m, b)).fold(0.0, f64::max)
    }

    /// The anomalies of the pieces; None when a distance is too close to the threshold to be decided.
    pub fn detect(&mut self, pieces: &[Piece], seen: &mut HashSet<String>) -> Option<Vec<Found>> {
        let texts: Vec<String> = pieces.iter().map(|p| String::from_utf8(p.bytes.clone()).expect("utf8")).collect();
        let mut found: Vec<(usize, f64)> = vec![];
        for (i, t) in texts.iter().enumerate() {
            let tokens = logreduce_tokenizer::process(t);
            if !seen.insert(tokens.clone()) {
                continue;
            }
            let d = self.distance(&tokens);
            if (d - THRESHOLD).abs() < 1e-4 {
                return None;
            }
            if d > THRESHOLD {
                found.push((i, d));
            }
        }
        let mut out = vec![];
        let mut shown = 0; // the first piece that was not shown yet
        for (n, (i, d)) in found.iter().enumerate() {
            let next = found.get(n + 1).map(|f| f.0).unwrap_or(texts.len());
            let before = texts[(i.saturating_sub(3)).max(shown)..*i].to_vec();
            let end = (i + 4).min(next).min(texts.len());
            let after = texts[i + 1..end].to_vec();
            shown = end;
            out.push(Found { line: texts[*i].clone(), pos: pieces[*i].line, distance: *d, before, after });
        }
        Some(out)
    }
}
