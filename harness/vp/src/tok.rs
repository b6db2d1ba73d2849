//! C04-C06: the tokenizer.
use crate::engine::*;
use crate::{ensure, prop, Prop};
use logreduce_tokenizer::process;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn props() -> Vec<Prop> {
    vec![
        prop("C04", "exploration", c04, &["lines are at most 6000 bytes, as the line reader guarantees"]),
        prop("C05", "exploration", c05, &[]),
        prop("C06", "exploration", c06, &[]),
    ]
}

// ---------------------------------------------------------------- generators

fn hexs(min: usize, max: usize) -> impl Strategy<Value = String> + Clone {
    proptest::collection::vec(0u8..16, min..=max)
        .prop_map(|v| v.iter().map(|d| char::from_digit(*d as u32, 16).unwrap()).collect())
}

/// Fragments that the tokenizer handles specially, and their building blocks.
fn frag() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "[a-zA-Z]{1,9}",
        2 => "[0-9]{1,5}",
        3 => prop_oneof![
            Just(" "), Just("  "), Just("\t"), Just("\\n"), Just("\\r"), Just("/"), Just("-"), Just("|"), Just("="), Just(":"),
            Just("["), Just("]"), Just("("), Just(")"), Just("@"), Just("\\"), Just("'"), Just("\""), Just(","), Just(";"), Just("{"),
            Just("}"), Just("<"), Just(">"), Just("u'"), Just("u\""), Just("*"), Just("$"), Just("%"), Just("."), Just("_"), Just("+"),
            Just("=="), Just(".."), Just("\u{a0}"), Just("\u{3000}"), Just("é"), Just("λ"), Just("𝒜"), Just("\u{0}"), Just("^+ "), Just("++ echo ")
        ].prop_map(|s: &str| s.to_string()),
        1 => prop_oneof![
            Just("error"), Just("Traceback"), Just("FAILED"), Just("warn"), Just("non-zero"), Just("sunday"), Just("May"), Just("sha256:"), Just("md5:"),
            Just("req-"), Just("tap"), Just("txa"), Just("AUTH_"), Just("gAAAA"), Just("http://"), Just("ftp://"), Just("/tmp"), Just("tmp/"), Just("refs/"),
            Just("repos/"), Just("iptables "), Just(" -L"), Just("GET / HTTP/1.1"), Just("* "), Just("password="), Just("token:"), Just("id=")
        ].prop_map(|s: &str| s.to_string()),
        1 => hexs(1, 40),
        1 => "\\PC{1,5}",
    ]
}

fn line() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => proptest::collection::vec(frag(), 0..16).prop_map(|v| v.concat()),
        2 => proptest::collection::vec(frag(), 2..20).prop_map(|v| v.join(" ")),
        1 => "\\PC{0,40}",
        1 => proptest::collection::vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    units: Vec<String>,
    repeat: u16,
    prefix: bool,
}

fn deep() -> impl Strategy<Value = Deep> {
    (proptest::collection::vec(frag(), 1..4), 1u16..2000, any::<bool>())
        .prop_map(|(units, repeat, prefix)| Deep { units, repeat, prefix })
}

fn render_deep(d: &Deep) -> String {
    let unit = d.units.concat();
    let n = (d.repeat as usize).min(5990 / unit.len().max(1));
    let s = unit.repeat(n);
    let mut s = if d.prefix { format!("x {}", s) } else { s };
    let mut end = s.len().min(6000);
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    s.truncate(end);
    s
}

// ---------------------------------------------------------------- C04

fn total(l: &str) -> Check {
    let t = process(l);
    ensure!(t.trim() == t, "surrounding white space in {:?}", short(&t));
    ensure!(t.len() <= 12 * l.len() + 32, "{} bytes of tokens for {} bytes", t.len(), l.len());
    Ok(())
}

/// The tokens of a line, computed by another process that has seen other lines before.
fn elsewhere(l: &str) -> Result<String, String> {
    use std::io::{Read, Write};
    use std::process::{Child, Command, Stdio};
    thread_local! {
        static CHILD: std::cell::RefCell<Option<Child>> = const { std::cell::RefCell::new(None) };
    }
    CHILD.with(|c| {
        let mut c = c.borrow_mut();
        let child = match &mut *c {
            Some(c) => c,
            None => {
                let exe = std::env::current_exe().map_err(|e| e.to_string())?;
                c.insert(Command::new(exe).arg("tokens").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| e.to_string())?)
            }
        };
        let mut ask = || -> std::io::Result<Vec<u8>> {
            let w = child.stdin.as_mut().unwrap();
            w.write_all(&(l.len() as u32).to_le_bytes())?;
            w.write_all(l.as_bytes())?;
            let r = child.stdout.as_mut().unwrap();
            let mut n = [0; 4];
            r.read_exact(&mut n)?;
            let mut v = vec![0; u32::from_le_bytes(n) as usize];
            r.read_exact(&mut v)?;
            Ok(v)
        };
        let v = ask();
        if v.is_err() {
            *c = None;
        }
        v.map(|v| String::from_utf8_lossy(&v).to_string()).map_err(|e| format!("{:?} in another process: {}", short(l), e))
    })
}

/// The other process.
pub fn serve_tokens() {
    use std::io::{Read, Write};
    let (mut r, mut w) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut n = [0; 4];
    while r.read_exact(&mut n).is_ok() {
        let mut v = vec![0; u32::from_le_bytes(n) as usize];
        if r.read_exact(&mut v).is_err() {
            break;
        }
        let t = process(&String::from_utf8_lossy(&v));
        if w.write_all(&(t.len() as u32).to_le_bytes()).and_then(|_| w.write_all(t.as_bytes())).and_then(|_| w.flush()).is_err() {
            break;
        }
    }
}

fn c04(r: &mut Runner) {
    r.sub(
        "total",
        "lines concatenated from fragments the tokenizer handles (separators, quotes, keywords, digests, unicode) and arbitrary unicode strings; no panic, trimmed result, size at most 12 x + 32; non-trivial: the tokens are neither empty nor the skip token",
        r.cases(1_200_000, 10_000_000),
        line,
        |l, info| {
            let t = process(l);
            info.nontrivial_if(!t.is_empty() && t != "%GL_FILTER");
            info.label_if(!l.is_ascii(), "unicode");
            total(l)
        },
    );
    r.sub(
        "long",
        "the same fragments repeated up to the 6000 byte limit (deeply nested keys, paths, pids, pipes); non-trivial: more than 1000 bytes",
        r.cases(7_200, 60_000),
        deep,
        |d, info| {
            let l = render_deep(d);
            info.nontrivial_if(l.len() > 1000);
            total(&l)
        },
    );
    r.sub(
        "pure",
        "histories of 2-12 lines and 0-6 variants of them (other end, a letter changed, other case, words swapped), tokenized in order, then again in other orders on two threads and, in the reverse order, in another process; every result must depend on its line only; non-trivial: at least three different results",
        r.cases(48_000, 400_000),
        || (proptest::collection::vec(line(), 2..12), proptest::collection::vec((any::<u16>(), 0u8..6, "[a-z]{4,9}"), 0..6), any::<u64>()),
        |(lines, variants, salt), info| {
            let mut lines = lines.clone();
            for (i, kind, word) in variants {
                let l = lines[*i as usize % lines.len()].clone();
                lines.push(match kind {
                    0 => format!("{} {}", l, word),
                    1 => format!("{} {}", word, l),
                    2 => match l.rsplit_once(' ') {
                        Some((a, _)) => format!("{} {}", a, word),
                        None => format!("{}{}", l, word),
                    },
                    3 => l.to_uppercase(),
                    4 => l.split(' ').rev().collect::<Vec<_>>().join(" "),
                    _ => {
                        let n = l.chars().count().max(1);
                        let at = *i as usize / 7 % n;
                        l.chars().enumerate().map(|(k, c)| if k == at { 'z' } else { c }).collect()
                    }
                });
            }
            let lines = &lines;
            let first: Vec<String> = lines.iter().map(|l| process(l)).collect();
            let order = |salt: u64| {
                let mut v: Vec<usize> = (0..lines.len()).collect();
                v.sort_by_key(|i| mix(salt ^ *i as u64));
                v
            };
            let run = |salt: u64| -> Check {
                for i in order(salt) {
                    let t = process(&lines[i]);
                    ensure!(t == first[i], "{:?} gives {:?} then {:?}", short(&lines[i]), short(&first[i]), short(&t));
                    let t = process(&lines[i].clone());
                    ensure!(t == first[i], "{:?} gives {:?} then {:?}", short(&lines[i]), short(&first[i]), short(&t));
                }
                Ok(())
            };
            let (a, b) = std::thread::scope(|s| {
                let h = s.spawn(|| run(*salt));
                let b = run(mix(*salt));
                (h.join().unwrap_or(Err("panic in a thread".into())), b)
            });
            let distinct: std::collections::HashSet<_> = first.iter().collect();
            info.nontrivial_if(distinct.len() >= 3);
            a?;
            b?;
            for (l, want) in lines.iter().zip(&first).rev() {
                let t = elsewhere(l)?;
                ensure!(t == *want, "{:?} gives {:?}, and {:?} in another process", short(l), short(want), short(&t));
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- C05

/// A word with two values of the same kind.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Slot {
    kind: String,
    a: String,
    b: String,
}

fn slot_of(kind: &'static str, s: impl Strategy<Value = String> + Clone + 'static) -> BoxedStrategy<Slot> {
    (s.clone(), s).prop_map(move |(a, b)| Slot { kind: kind.into(), a, b }).boxed()
}

fn date() -> impl Strategy<Value = String> + Clone {
    (
        prop_oneof![
            Just("sunday"), Just("monday"), Just("tuesday"), Just("wednesday"), Just("thursday"), Just("friday"), Just("saturday"), Just("january"),
            Just("february"), Just("march"), Just("april"), Just("may"), Just("june"), Just("july"), Just("august"), Just("september"), Just("october"),
            Just("november"), Just("december")
        ],
        0u8..3,
    )
        .prop_map(|(w, c)| match c {
            0 => w.to_string(),
            1 => w.to_uppercase(),
            _ => w[..1].to_uppercase() + &w[1..],
        })
}

/// digits of a fixed pattern: 'x' is a hex digit, '9' a digit
fn pattern(p: &'static str) -> impl Strategy<Value = String> + Clone {
    (proptest::collection::vec(0u32..16, p.len()), any::<bool>()).prop_map(move |(v, upper)| {
        p.chars()
            .zip(v)
            .map(|(c, d)| match c {
                'h' => {
                    let c = char::from_digit(d, 16).unwrap();
                    if upper {
                        c.to_ascii_uppercase()
                    } else {
                        c
                    }
                }
                '9' => char::from_digit(d % 10, 10).unwrap(),
                c => c,
            })
            .collect()
    })
}

fn id() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        pattern("hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh"),
        pattern("hh:hh:hh:hh:hh:hh"),
        pattern("99.99.99.99"),
        pattern("999.99.9.9:9999"),
        pattern("hhhh:hhhh::hhhh"),
        pattern("9999-99-99"),
        pattern("99:99:99.999"),
        pattern("99:99:99Z"),
        pattern("::h"),
        pattern("9999-99-99-99:99:99"),
        pattern("0xhhhhhhhh"),
        pattern("0xhhh"),
        pattern("99999"),
        pattern("9"),
        pattern("hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh"),
        pattern("hhhhhhh"),
    ]
}

fn slot() -> impl Strategy<Value = Slot> {
    let path_char = "[a-z0-9]{1,6}";
    let key_val = (1usize..40).prop_flat_map(|n| {
        let v = proptest::collection::vec(0usize..62, n).prop_map(|v| {
            v.iter().map(|i| b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[*i] as char).collect::<String>()
        });
        (
            prop_oneof![
                Just("session_id"), Just("AWS_ACCESS_KEY"), Just("git_ref"), Just("region"), Just("auth-token"), Just("client_secret"), Just("OS_PASSWORD"),
                Just("password"), Just("ssh_key"), Just("ZUUL_REF"), Just("Password"), Just("token"), Just("id_"), Just("UserId")
            ],
            prop_oneof![Just('='), Just(':')],
            v.clone(),
            v,
        )
            .prop_map(|(k, s, a, b)| Slot { kind: "id value".into(), a: format!("{}{}{}", k, s, a), b: format!("{}{}{}", k, s, b) })
    });
    let hex_in_word = ("[g-z]{4,8}", prop_oneof![Just('='), Just('/'), Just('-'), Just('@'), Just('(')], prop_oneof![
        (pattern("hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh"), pattern("hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh")),
        (pattern("hh:hh:hh:hh:hh:hh"), pattern("hh:hh:hh:hh:hh:hh")),
        (pattern("hhhhhhhh"), pattern("hhhhhhhh")),
        (pattern("999.9.99.9"), pattern("999.9.99.9")),
    ])
        .prop_map(|(w, s, (a, b))| {
            // the letters of the stem must not look like another class
            let w = w.replace("tx", "gg").replace("tmp", "ggg");
            Slot { kind: "id in a word".into(), a: format!("{}{}{}", w, s, a), b: format!("{}{}{}", w, s, b) }
        });
    prop_oneof![
        2 => slot_of("date", date()),
        4 => slot_of("id", id()),
        2 => slot_of("url", (prop_oneof![Just("http"), Just("https"), Just("ftp"), Just("ssh"), Just("HTTPS")], proptest::collection::vec(path_char, 1..4), "[a-z0-9.:@?&=_-]{0,20}")
            .prop_map(|(s, p, q)| format!("{}://{}/{}", s, p.join("."), q))),
        2 => slot_of("digest", prop_oneof![
            (prop_oneof![Just("md5:"), Just("sha256:"), Just("SHA1:"), Just("hash:"), Just("sha512:")], hexs(1, 128)).prop_map(|(p, h)| format!("{}{}", p, h)),
            "[A-Za-z0-9_+/-]{64,90}",
        ]),
        1 => slot_of("base64", (25usize..63, 0usize..2).prop_flat_map(|(n, pad)| (proptest::collection::vec(0usize..61, n), Just(pad))).prop_map(|(v, pad)| {
            // no lower case m: "tmp" can't appear
            let pad = &"="[..if v.len() < 62 { pad } else { 0 }];
            format!("Q{}{}", v.iter().map(|i| b"abcdefghijklnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/"[*i] as char).collect::<String>(), pad)
        })),
        1 => slot_of("base64", "[A-Za-ln-z0-9]{1,12}".prop_map(|v| format!("Q{}+Q==", v))),
        2 => slot_of("cookie", prop_oneof![
            pattern("req-hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh"),
            pattern("taphhhhhhhh-hh"),
            pattern("AUTH_hhhhhhhhhhhhhhhhhhhhhhhhhhhhhhhh"),
            pattern("gAAAAhhhhhhhhhhhhhhhhhhhh"),
            pattern("AAAAhhhhhhhhhhhhghhhhhhhh"),
            pattern("txahhhhhhhhhhhhhhhhhhhh-hhhhhhhhhh"),
        ]),
        2 => slot_of("temporary path", prop_oneof![
            (path_char, path_char).prop_map(|(a, b)| format!("/tmp/{}/{}", a, b)),
            path_char.prop_map(|a| format!("/var/tmp/{}.txt", a)),
            path_char.prop_map(|a| format!("tmp{}", a)),
            ("[a-z]{1,6}", path_char).prop_map(|(d, a)| format!("/{}/tmp{}", d, a)),
            path_char.prop_map(|a| format!("build_tmp/{}", a)),
            path_char.prop_map(|a| format!("mytmp/{}/x", a)),
        ]),
        2 => slot_of("git ref", prop_oneof![
            (path_char, path_char).prop_map(|(a, b)| format!("refs/{}/{}", a.replace("tmp", "x"), b.replace("tmp", "x"))),
            path_char.prop_map(|a| format!("repos/{}", a.replace("tmp", "x"))),
            ("[g-s]{7}", "[g-s]{7}").prop_map(|(a, b)| format!("{}..{}", a, b)),
        ]),
        2 => ("[g-s]{4,9}", "[0-9]{1,7}", "[0-9]{1,7}", any::<bool>()).prop_map(|(w, a, b, colon)| {
            let c = if colon { ":" } else { "" };
            Slot { kind: "pid".into(), a: format!("{}[{}]{}", w, a, c), b: format!("{}[{}]{}", w, b, c) }
        }),
        // e.g. heat ids
        1 => ("[g-s]{4,9}", proptest::collection::vec("[g-sG-S0-9]{1,8}", 4..7), proptest::collection::vec("[g-sG-S0-9]{1,8}", 4..7))
            .prop_map(|(w, a, b)| Slot { kind: "dashed id".into(), a: format!("{}-{}", w, a.join("-")), b: format!("{}-{}", w, b.join("-")) })
            .prop_filter("a digest", |s| s.a.len() < 64 && s.b.len() < 64),
        3 => key_val,
        2 => hex_in_word,
        1 => ("[g-s]{4,9}", "[0-9]{1,5}", "[0-9]{1,5}").prop_map(|(w, a, b)| Slot { kind: "number in a word".into(), a: format!("{}{}", w, a), b: format!("{}{}", w, b) }),
    ]
}

fn wrap(w: &str, kind: u8) -> String {
    match kind {
        0 => format!("\"{}\"", w),
        1 => format!("'{}',", w),
        2 => format!("({})", w),
        3 => format!("[{}]", w),
        4 => format!("<{}>", w),
        5 => format!("{{{}}}", w),
        6 => format!("u'{}'", w),
        7 => format!("{};", w),
        8 => format!("\\\"{}\\\"", w),
        9 => format!("u\"{}\"", w),
        10 => format!("\\'{}\\',", w),
        11 => format!("[u'{}',", w),
        12 => format!("('{}')", w),
        13 => format!("{{\\\"{}\\\"}}", w),
        _ => w.to_string(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Part {
    Word(String, u8),
    Slot(Slot, u8),
}

fn frame_word() -> impl Strategy<Value = String> {
    prop_oneof![6 => "[a-zA-Z]{1,11}", 1 => "[A-Za-z_.]{4,14}:", 1 => "[a-z]{2,8}=[a-z]{1,8}", 1 => "[0-9]{1,4}", 1 => "[a-z]{1,8}(/[a-z]{1,8}){1,3}"]
}

fn c05(r: &mut Runner) {
    r.sub(
        "slots",
        "lines of generated words with 1-4 varying elements (dates, ids, urls, digests, base64, cookies, temporary paths, refs, pids, id values, numbers), wrapped in quotes or brackets, each given two values of its kind; both lines must have the same tokens; non-trivial: the lines differ and are not skipped",
        r.cases(800_000, 6_000_000),
        || {
            (
                proptest::collection::vec(
                    prop_oneof![3 => (frame_word(), 0u8..30).prop_map(|(w, k)| Part::Word(w, k)), 2 => (slot(), 0u8..24).prop_map(|(s, k)| Part::Slot(s, k))],
                    1..9,
                ),
                prop_oneof![8 => Just(" "), 1 => Just("  "), 1 => Just("\t")].prop_map(|s: &str| s.to_string()),
            )
        },
        |(parts, sep), info| {
            let build = |first: bool| {
                parts
                    .iter()
                    .map(|p| match p {
                        Part::Word(w, k) => wrap(w, *k),
                        Part::Slot(s, k) => wrap(if first { &s.a } else { &s.b }, *k),
                    })
                    .collect::<Vec<_>>()
                    .join(sep)
            };
            let (la, lb) = (build(true), build(false));
            let (ta, tb) = (process(&la), process(&lb));
            info.nontrivial_if(la != lb && ta != "%GL_FILTER");
            for p in parts {
                if let Part::Slot(s, _) = p {
                    info.label(kind_label(&s.kind));
                }
            }
            ensure!(ta == tb, "{:?} gives {:?}, {:?} gives {:?}", la, ta, lb, tb);
            Ok(())
        },
    );
    r.sub(
        "digits",
        "any line (fragments of C04), and the same line with every digit replaced by a generated one; both must have the same tokens (the skip rule naming HTTP/1.1 literally is left out); non-trivial: a digit changed and the line is not skipped",
        r.cases(800_000, 6_000_000),
        || (line(), any::<u64>()),
        |(l, salt), info| {
            let l = l.replace("HTTP/1", "HTTP/x");
            let m: String = l
                .char_indices()
                .map(|(i, c)| if c.is_ascii_digit() { (b'0' + (mix(salt ^ i as u64) % 10) as u8) as char } else { c })
                .collect();
            // a replacement must not make the literal rule match either
            let (a, b) = (process(&l), process(&m));
            info.nontrivial_if(l != m && a != "%GL_FILTER");
            ensure!(a == b, "{:?} gives {:?}, {:?} gives {:?}", l, a, m, b);
            Ok(())
        },
    );
}

fn kind_label(k: &str) -> &'static str {
    for l in ["date", "id", "url", "digest", "base64", "cookie", "temporary path", "git ref", "pid", "id value", "id in a word", "number in a word", "dashed id"] {
        if l == k {
            return l;
        }
    }
    "other"
}

// ---------------------------------------------------------------- C06

const ERRORS: [&str; 15] = [
    "error", "fatal", "failure", "failed", "warning", "err", "fail", "warn", "denied", "assert", "assertion", "non-zero", "exception", "traceback", "error",
];

const DATES: [&str; 19] = [
    "sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "january", "february", "march", "april", "may", "june", "july", "august",
    "september", "october", "november", "december",
];

/// Letters only, four to 24 of them, and in none of the classes of varying elements.
fn ordinary(w: &str) -> bool {
    let lower = w.to_lowercase();
    w.len() > 3
        && w.len() <= 24
        && w.bytes().all(|c| c.is_ascii_alphabetic())
        && !w.bytes().all(|c| c.is_ascii_hexdigit() || c == b'x' || c == b'Z')
        && !DATES.contains(&lower.as_str())
        && !ERRORS.contains(&lower.as_str())
        && !w.starts_with("tap")
        && !w.starts_with("tmp")
        && !w.starts_with("AAAA")
        && !w.starts_with("gAAAA")
        && !(w.starts_with("tx") && w.as_bytes().get(2).is_some_and(|c| c.is_ascii_lowercase()))
}

fn ordinary_word() -> impl Strategy<Value = String> {
    prop_oneof![
        5 => "[a-z]{4,10}",
        2 => "[A-Za-z]{4,24}",
        1 => "[A-Z]{4,8}",
        2 => prop_oneof![
            Just("connection"), Just("erroneous"), Just("failover"), Just("warned"), Just("failing"), Just("Exceptions"), Just("tracebacks"), Just("mayhem"),
            Just("sundays"), Just("marching"), Just("assertive"), Just("http"), Just("https"), Just("template"), Just("attempt"), Just("referee"), Just("shape"),
            Just("hashes"), Just("token"), Just("password"), Just("secret"), Just("region"), Just("monkey"), Just("idle"), Just("deny"), Just("kernel"), Just("Zebra"), Just("exit"), Just("name"), Just("hostname"), Just("username"), Just("status"), Just("state"), Just("level"), Just("service"), Just("message"), Just("module"), Just("user"), Just("value"), Just("path"), Just("type"), Just("reason")
        ].prop_map(|s: &str| s.to_string()),
    ]
    .prop_map(|w| if ordinary(&w) { w } else { format!("w{}ord", &w[..w.len().min(4)].to_lowercase()) })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum W {
    /// word, wrapper
    Plain(String, u8),
    /// index of the keyword, case, wrapper
    Error(usize, u8, u8),
    /// short words are dropped
    Small(String),
    Noise(Slot),
}

fn error_word(i: usize, case: u8) -> String {
    let w = ERRORS[i % ERRORS.len()];
    match case % 3 {
        0 => w.to_string(),
        1 => w.to_uppercase(),
        _ => w[..1].to_uppercase() + &w[1..],
    }
}

fn errs(w: &str) -> Vec<String> {
    ["", "%A", "%B", "%C", "%D"].iter().map(|s| format!("{}{}", w, s)).collect()
}

fn c06(r: &mut Runner) {
    r.sub(
        "words",
        "lines of ordinary words, error keywords in any case, dropped short words and varying elements, separated by spaces, tabs or escaped line returns and wrapped in quotes or brackets; the tokens that are not placeholders must be exactly the ordinary words and five tokens per error keyword, in order; non-trivial: at least two ordinary words",
        r.cases(600_000, 6_000_000),
        || {
            (
                proptest::collection::vec(
                    (
                        prop_oneof![
                            8 => (ordinary_word(), 0u8..30).prop_map(|(w, k)| W::Plain(w, k)),
                            2 => (0usize..15, 0u8..3, 0u8..24).prop_map(|(i, c, k)| W::Error(i, c, k)),
                            1 => "[g-w]{1,3}".prop_map(|w| if w == "err" { W::Small("ok".into()) } else { W::Small(w) }),
                            2 => noise().prop_map(W::Noise),
                        ],
                        0u8..12,
                    ),
                    2..12,
                ),
                0u8..4,
            )
        },
        |(words, pad), info| {
            let mut l = String::new();
            let mut expected: Vec<String> = vec![];
            let mut plain = 0;
            for (i, (w, sep)) in words.iter().enumerate() {
                if i > 0 {
                    l.push_str(match sep {
                        0 => "  ",
                        1 => "\t",
                        2 => " \t ",
                        3 => "\t\t",
                        // the line must not be a single word
                        4 if i > 1 => "\\n",
                        5 => " \\r\\n\t",
                        _ => " ",
                    });
                }
                match w {
                    W::Plain(w, k) => {
                        l.push_str(&wrap(w, *k));
                        expected.push(w.clone());
                        plain += 1;
                    }
                    W::Error(i, c, k) => {
                        let w = error_word(*i, *c);
                        l.push_str(&wrap(&w, *k));
                        expected.extend(errs(&w));
                        info.label("error keyword");
                    }
                    W::Small(w) => l.push_str(w),
                    W::Noise(s) => {
                        l.push_str(&s.a);
                        info.label("varying element");
                    }
                }
            }
            let l = match pad {
                0 => format!("  {}", l),
                1 => format!("{}\t", l),
                _ => l,
            };
            let t = process(&l);
            info.nontrivial_if(plain >= 2);
            let got: Vec<&str> = t.split_whitespace().filter(|w| !w.starts_with('%')).collect();
            ensure!(got == expected, "{:?} gives {:?}", l, t);
            Ok(())
        },
    );
    r.sub(
        "blanks",
        "any line (fragments of C04), and the same line with white space around it and its spaces doubled or turned into tabs: both must have the same tokens (a line that is changed inside must not look like one of the skip rules); non-trivial: the line has a space and is not skipped",
        r.cases(300_000, 3_000_000),
        || (line(), "[ \t]{0,3}", "[ \t]{0,3}", 0u8..4),
        |(l, before, after, how), info| {
            let t = process(l);
            info.nontrivial_if(t != "%GL_FILTER" && l.contains(' '));
            let padded = format!("{}{}{}", before, l, after);
            ensure!(process(&padded) == t, "{:?} gives {:?} and {:?} gives {:?}", l, t, padded, process(&padded));
            let inner = match how {
                0 => l.replace(' ', "  "),
                1 => l.replace(' ', "\t"),
                2 => l.replace(' ', " \t"),
                _ => return Ok(()),
            };
            // The skip rules are patterns with spaces.
            if t != "%GL_FILTER" && process(&inner) != "%GL_FILTER" {
                ensure!(process(&inner) == t, "{:?} gives {:?} and {:?} gives {:?}", l, t, inner, process(&inner));
            }
            Ok(())
        },
    );
    let rules = regex::Regex::new(concat!(
        r"GET / HTTP/1.1|\* [a-zA-Z]+: [a-zA-Z0-9\.-]*$|Trying other mirror.|ovs-ofctl .* (dump-ports|dump-flows|show)\b|(ip|eb)tables .* -L\b",
        r#"|(^\^[+*-] [a-z0-9\.>-]{5,} [0-9])|(^[a-f0-9s/]+>[0-9]+ )|(^\+\+ echo [^ ]+$)|(^[ '",]*\|.{17}\|[ '",]*$)"#
    ))
    .unwrap();
    r.sub(
        "rules",
        "ordinary words before, inside and after fragments that match the skip rules or miss them by a word, a character or their place in the line: a line that matches a rule has the skip token alone, and the words of any other line must all appear, in order; non-trivial: the line matches no rule and has two ordinary words",
        r.cases(360_000, 3_000_000),
        || {
            let w = || ordinary_word().prop_map(|w| w.to_lowercase()).prop_filter("ordinary", |w| ordinary(w));
            let frag = prop_oneof![
                prop_oneof![
                    Just("GET / HTTP/1.1"), Just("GET /_ HTTP/1.1"), Just("GET / HTTP/2"), Just("POST / HTTP/1.1"), Just("Trying other mirror."), Just("Trying other _ mirror."), Just("Trying other mirror"),
                    Just("other mirror."), Just("* _: host.example.org"), Just("* _: 10.1.2.3"), Just("* _: host _"), Just("_: host.example"), Just("* _ : host"), Just("*_: host-1"),
                ],
                prop_oneof![
                    Just("ovs-ofctl _ dump-ports"), Just("ovs-ofctl dump-ports"), Just("ovs-ofctl -O _ dump-flows br"), Just("ovs-ofctl _ show _"), Just("ovs-ofctl _ showing"), Just("ovs-ofctl _ add-flow"),
                    Just("_ dump-flows br"), Just("iptables -t _ -L"), Just("iptables -L"), Just("iptables _ -L -n"), Just("ebtables _ -L"), Just("ip6tables _ -L"), Just("iptables _ -List"), Just("iptables _ -A _"), Just("nftables _ -L"),
                    Just("_ -L _"),
                ],
                prop_oneof![
                    Just("^+ ntp.example.org 2 _"), Just("^* ntp1.org 3"), Just("^- ntp 2 _"), Just("^? ntp.example.org 2 _"), Just("^+ ntp.example.org _ 2"), Just("^+ntp.example.org 2"), Just("+ ntp.example.org 2 _"),
                    Just("abcdef0123>33 _ key"), Just("s/5bf8>28 _"), Just("wxyz>33 _ key"), Just("abcd>_ 3"), Just("abcd>33"), Just("_ abcd>33 _"), Just("++ echo _"), Just("++ echo _ _"), Just("+ echo _"), Just("++ echo"), Just("++ echos _"),
                ],
                prop_oneof![
                    Just("|        =+ooo=+.o|"), Just("'|        =+ooo=+.o|',"), Just("|        =+ooo=+.|"), Just("|        =+ooo=+.oo|"), Just("        =+ooo=+.o"), Just("| _ | _ |"), Just("_"), Just("_ _"),
                ],
            ].prop_map(|s: &str| s.to_string());
            (proptest::collection::vec(prop_oneof![2 => frag, 1 => Just("_".to_string())], 1..4), proptest::collection::vec(w(), 16..=16))
        },
        |(frags, words), info| {
            let template = frags.join(" ");
            let mut used = vec![];
            let mut l = String::new();
            for c in template.chars() {
                if c == '_' {
                    let w = &words[used.len() % words.len()];
                    l.push_str(w);
                    used.push(w.clone());
                } else {
                    l.push(c);
                }
            }
            let t = process(&l);
            let trimmed = l.trim();
            if !trimmed.contains(char::is_whitespace) || rules.is_match(trimmed) {
                info.label("a rule matches");
                ensure!(t == "%GL_FILTER", "{:?} matches a skip rule and gives {:?}", l, t);
                return Ok(());
            }
            info.nontrivial_if(used.len() >= 2);
            // glued to something else in some fragments
            let glued = |i: usize| {
                let at = template.char_indices().filter(|(_, c)| *c == '_').nth(i).unwrap().0;
                let edge = |c: Option<char>| c.map_or(true, |c| c == ' ');
                !(edge(template[..at].chars().last()) && edge(template[at + 1..].chars().next()))
            };
            let tokens: Vec<&str> = t.split(' ').collect();
            let mut it = tokens.iter();
            for (i, w) in used.iter().enumerate() {
                if !glued(i) {
                    ensure!(it.any(|t| t == w), "the word {:?} of {:?} is not in {:?}", w, l, t);
                }
            }
            Ok(())
        },
    );
    r.sub(
        "composite",
        "an error keyword attached to a colon, pipe, slash or key (error:, WARN|x, level=error, status:FAILED) or followed by punctuation, inside a generated line: the five tokens of the keyword must be there, and the ordinary words around it too; non-trivial: always",
        r.cases(240_000, 2_000_000),
        || (proptest::collection::vec(ordinary_word(), 1..6), 0usize..15, 0u8..3, 0u8..12, ordinary_word(), 0usize..6),
        |(words, i, case, form, other, at), info| {
            let e = error_word(*i, *case);
            // a key naming an id hides its value, that's another class
            let lower = other.to_lowercase();
            let key = if ["id", "key", "ref", "region", "token", "secret", "password", "tmp", "hash"].iter().any(|k| lower.contains(k)) || lower == "repos" { "status" } else { other.as_str() };
            let comp = match form {
                0 => format!("{}:", e),
                1 => format!("{}|{}", e, key),
                2 => format!("{}={}", key, e),
                3 => format!("{}:{}", key, e),
                4 => format!("{}/{}", e, key),
                5 => format!("{}/{}", key, e),
                6 => format!("({}):", e),
                7 => format!("\"{}\":", e),
                8 => format!("{}|{}|", key, e),
                9 => format!("{}({})", key, e),
                10 => format!("[{}]", e),
                _ => format!("{}=", e),
            };
            // over 24 characters a run of letters and slashes is a blob
            let glued: String = comp.chars().filter(|c| !"\"()[]".contains(*c)).collect();
            if glued.len() > 24 || (e.contains('-') && *form != 10) {
                return Ok(());
            }
            let mut all = words.clone();
            let at = at % (all.len() + 1);
            all.insert(at, comp.clone());
            let l = all.join(" ");
            let t = process(&l);
            info.nontrivial();
            let tokens: Vec<&str> = t.split_whitespace().collect();
            let strip = |w: &str| w.trim_end_matches(['/', '|', '-']).trim_end_matches("%EQ").to_string();
            let run = errs(&e);
            ensure!(
                tokens.windows(5).any(|w| w[..4].iter().zip(&run).all(|(a, b)| a == b) && strip(w[4]) == run[4]),
                "the keyword of {:?} is not in {:?}", l, t
            );
            let plain: Vec<String> = tokens.iter().map(|w| strip(w)).collect();
            let mut it = plain.iter();
            for w in words {
                ensure!(it.any(|t| t == w), "the word {:?} of {:?} is not in {:?}", w, l, t);
            }
            Ok(())
        },
    );
    r.sub(
        "joined",
        "lines of ordinary words joined by up to three dashes, by slashes, pipes, a colon, an equals sign, an at sign or brackets, of values given to a key, and of identifiers of up to 31 characters joined by dots and underscores; every word (every identifier as a whole) must be there once, in order, and nothing else; non-trivial: two joined groups",
        r.cases(360_000, 3_000_000),
        || proptest::collection::vec((proptest::collection::vec(ordinary_word(), 1..5), 0u8..12, 0u8..20), 1..6),
        |groups, info| {
            let mut l = vec![];
            let mut want: Vec<String> = vec![];
            let mut joined = 0;
            for (g, form, k) in groups {
                // a part of a temporary path or a git ref is another class
                let g: Vec<String> = g.iter().map(|w| if w.contains("tmp") || w == "refs" || w == "repos" { "plain".to_string() } else { w.clone() }).collect();
                let lower = g[0].to_lowercase();
                let id_key = ["id", "key", "ref", "region", "token", "secret", "password", "hash", "sha", "md"].iter().any(|k| lower.contains(k));
                let two = g.len() >= 2;
                let (text, tokens, limit) = match form {
                    0..=2 => (g.join("-"), g.clone(), 60),
                    3 => (g.join("/"), g.clone(), 24),
                    4 => (format!("/{}", g.join("/")), g.clone(), 24),
                    5 => (g.join("|"), g.clone(), 63),
                    6 if two && !id_key => (format!("{}={}", g[0], g[1]), g[..2].to_vec(), 24),
                    7 if two && !id_key && g[0] != "http" && g[0] != "https" => (format!("{}:{}", g[0], g[1]), g[..2].to_vec(), 60),
                    8 if two => (format!("{}@{}", g[0], g[1]), g[..2].to_vec(), 31),
                    9 if two => (format!("{}({})", g[0], g[1]), g[..2].to_vec(), 31),
                    10 => (g.join("_"), vec![g.join("_")], 31),
                    11 => (g.join("."), vec![g.join(".")], 31),
                    _ => (g[0].clone(), vec![g[0].clone()], 24),
                };
                let (text, tokens) = if text.len() > limit { (g[0].clone(), vec![g[0].clone()]) } else { (text, tokens) };
                joined += (text != g[0]) as usize;
                l.push(wrap(&text, *k));
                want.extend(tokens);
            }
            l.push("tail".into());
            want.push("tail".into());
            let l = l.join(" ");
            let t = process(&l);
            info.nontrivial_if(joined >= 2);
            let got: Vec<&str> = t.split_whitespace().map(|w| w.trim_end_matches(['/', '|', '-']).trim_end_matches("%EQ")).collect();
            ensure!(got == want, "{:?} gives {:?}, not {:?}", l, t, want);
            Ok(())
        },
    );
    r.sub(
        "distinct",
        "two lines that differ in one ordinary word, the position or presence of a word, or an error keyword, must have different tokens; non-trivial: always",
        r.cases(300_000, 2_000_000),
        || (proptest::collection::vec(ordinary_word(), 2..9), ordinary_word(), any::<u8>(), 0u8..4),
        |(words, other, at, how), info| {
            let at = *at as usize % words.len();
            let mut v = words.clone();
            match how {
                0 => v[at] = other.clone(),
                1 => v.insert(at, other.clone()),
                2 => v[at] = error_word(other.len(), at as u8),
                _ => {
                    v.insert(at, "error".into());
                }
            }
            if v == *words {
                return Ok(());
            }
            info.nontrivial();
            let (a, b) = (words.join(" "), v.join(" "));
            ensure!(process(&a) != process(&b), "{:?} and {:?} both give {:?}", a, b, process(&a));
            Ok(())
        },
    );
}

/// Varying elements whose tokens are placeholders only.
fn noise() -> impl Strategy<Value = Slot> {
    prop_oneof![
        slot_of("date", date()),
        slot_of("id", id()),
        slot_of("url", "[a-z0-9]{1,8}".prop_map(|s| format!("https://{}/", s))),
        slot_of("digest", hexs(4, 60).prop_map(|h| format!("sha256:{}", h))),
        slot_of("cookie", pattern("req-hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh")),
        slot_of("temporary path", "[a-z0-9]{1,8}".prop_map(|s| format!("/tmp/{}", s))),
    ]
}
