//! C15-C17: directories, index names, compressed files.
use crate::engine::*;
use crate::trees::*;
use crate::{ensure, prop, Prop};
use logreduce_model::{hashing_index, Content, IndexName, Model, OutputMode, Source};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

pub fn props() -> Vec<Prop> {
    vec![
        prop("C15", "exploration", c15, &["names that are not UTF-8 are combined with neither an excluded suffix nor an etc directory"]),
        prop("C16", "exploration", c16, &[]),
        prop("C17", "exploration", c17, &["the reference detector of C10 and flate2 decide what a damaged file holds before the damage"]),
    ]
}

// ---- C15

/// The documented exclusions.
const SUFFIXES: [&str; 32] = [
    ".ico", ".png", ".clf", ".tar", ".tar.bzip2", ".subunit", ".sqlite", ".db", ".bin", ".pcap.log.txt", ".eot", ".otf", ".woff", ".woff2", ".ttf", ".yaml", ".ini", ".conf",
    "job-output.json", "log-classify.json", "zuul-manifest.json", ".html", "cacerts", "local/creds", "pacemaker/authkey", "mysql/tc.log.txt", "corosync/authkey", "object.builder",
    "account.builder", "container.builder", ".html", ".png",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Entry {
    File(Vec<u8>),
    Empty,
    Link { to: u8 },
    Fifo,
    Dir(Vec<(Name, Entry)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Name {
    Text(String),
    /// bytes that are not UTF-8 around a text
    Raw(String),
    /// excluded suffix number n, with a prefix, and .gz or not
    Excluded(String, u8, bool),
}

impl Name {
    fn os(&self) -> OsString {
        let clean = |s: &str| s.replace(['/', '\0'], "_");
        let mut b = match self {
            Name::Text(t) => clean(t).into_bytes(),
            Name::Raw(t) => {
                let mut v = clean(t).into_bytes();
                v.insert(v.len() / 2, 0xff);
                v.push(0xfe);
                v
            }
            Name::Excluded(p, n, gz) => {
                let s = SUFFIXES[*n as usize % SUFFIXES.len()];
                // the suffixes with a directory are made by the directory generator
                format!("{}{}{}", clean(p), s.rsplit('/').next().unwrap(), if *gz { ".gz" } else { "" }).into_bytes()
            }
        };
        if b.is_empty() || b == b"." || b == b".." {
            b = b"dots".to_vec();
        }
        b.truncate(200);
        // a cut must not split a character
        while !matches!(self, Name::Raw(_)) && std::str::from_utf8(&b).is_err() {
            b.pop();
        }
        OsString::from_vec(b)
    }
}

/// Extensions of ordinary files that are not excluded.
const EXTENSIONS: [&str; 28] = [
    ".yml", ".cfg", ".xml", ".csv", ".out", ".err", ".md", ".py", ".sh", ".htm", ".svg", ".jpg", ".zip", ".toml", ".service", ".journal", ".trace", ".dump", ".sql", ".properties", ".stdout", ".debug",
    ".pcap", ".LOG", ".config", ".inis", ".log.old", ".bz2",
];

fn name() -> impl Strategy<Value = Name> {
    prop_oneof![
        6 => "[a-z]{1,6}(\\.log|\\.txt|\\.1|\\.gz|\\.log\\.gz|\\.json|)".prop_map(Name::Text),
        2 => prop_oneof!["conf", "yaml", "my\\.conf\\.d", "png\\.log", "etc", "etc\\.log", "aetc", "x\\.htmlx", "y\\.conf\\.1", "db", "cacerts\\.txt", "creds", "authkey", "local", "pacemaker", "corosync", "mysql", "tc\\.log\\.txt"].prop_map(Name::Text),
        1 => ("[a-z]{1,5}", 0usize..EXTENSIONS.len(), prop_oneof![3 => Just(""), 1 => Just(".gz")]).prop_map(|(n, e, gz)| Name::Text(format!("{}{}{}", n, EXTENSIONS[e], gz))),
        2 => "\\PC{1,12}".prop_map(Name::Text),
        1 => "[ -~]{1,12}".prop_map(Name::Text),
        1 => prop_oneof![Just("new\nline.log"), Just(" "), Just("-rf"), Just("tab\t.log"), Just("a\\nb.log"), Just("é.log"), Just("%2e%2e"), Just("http:x")].prop_map(|s| Name::Text(s.to_string())),
        1 => "[a-z]{0,6}".prop_map(Name::Raw),
        3 => ("[a-z]{0,4}", any::<u8>(), any::<bool>()).prop_map(|(p, n, gz)| Name::Excluded(p, n, gz)),
    ]
}

fn dir_name() -> impl Strategy<Value = Name> {
    prop_oneof![
        5 => "[a-z]{1,5}".prop_map(Name::Text),
        2 => prop_oneof![Just("etc"), Just("local"), Just("pacemaker"), Just("mysql"), Just("corosync"), Just("etc.d"), Just("xetc"), Just("abc1234"), Just("logs.html")].prop_map(|s| Name::Text(s.to_string())),
        1 => "\\PC{1,8}".prop_map(Name::Text),
        1 => "[a-z]{0,3}".prop_map(Name::Raw),
    ]
}

fn entries() -> impl Strategy<Value = Vec<(Name, Entry)>> {
    let leaf = prop_oneof![
        6 => proptest::collection::vec(any::<u8>(), 0..30).prop_map(Entry::File),
        1 => Just(Entry::Empty),
        1 => (0u8..5).prop_map(|to| Entry::Link { to }),
        1 => Just(Entry::Fifo),
    ];
    let leaves = proptest::collection::vec((name(), leaf), 0..6).boxed();
    leaves.clone().prop_recursive(3, 30, 5, move |inner| {
        (leaves.clone(), proptest::collection::vec((dir_name(), inner), 0..4)).prop_map(|(mut l, d)| {
            l.extend(d.into_iter().map(|(n, e)| (n, Entry::Dir(e))));
            l
        })
    })
}

/// Create the entries; the regular files are added to `out`.
fn create(dir: &Path, entries: &[(Name, Entry)], root: &Path, out: &mut Vec<PathBuf>) {
    std::fs::create_dir_all(dir).unwrap();
    for (name, e) in entries {
        let p = dir.join(name.os());
        if p.symlink_metadata().is_ok() {
            continue;
        }
        match e {
            Entry::File(data) => {
                std::fs::write(&p, data).unwrap();
                out.push(p);
            }
            Entry::Empty => {
                std::fs::write(&p, b"").unwrap();
                out.push(p);
            }
            Entry::Link { to } => {
                let target = match to {
                    0 => root.join("../outside.log"),
                    1 => root.join("../outside"),
                    2 => PathBuf::from("."),
                    3 => PathBuf::from("missing"),
                    _ => root.to_path_buf(),
                };
                std::os::unix::fs::symlink(target, &p).unwrap();
            }
            Entry::Fifo => {
                let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
            }
            Entry::Dir(es) => create(&p, es, root, out),
        }
    }
}

/// None: not specified (not UTF-8 and possibly excluded).
fn is_source(path: &Path) -> Option<bool> {
    let lossy = path.as_os_str().as_bytes();
    let ends = |s: &str| lossy.ends_with(s.as_bytes()) || lossy.ends_with(format!("{}.gz", s).as_bytes());
    let etc = lossy.windows(5).any(|w| w == b"/etc/");
    let excluded = etc || SUFFIXES.iter().any(|s| ends(s));
    match path.to_str() {
        None if excluded => None,
        _ => Some(!excluded),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DirCase {
    entries: Vec<(Name, Entry)>,
    root: Name,
    slash: bool,
    /// directories between the root and the entries
    #[serde(default)]
    chain: Vec<Name>,
    /// more files beside the entries
    #[serde(default)]
    many: u16,
}

fn c15(r: &mut Runner) {
    let scratch = r.scratch.clone();
    r.sub(
        "listing",
        "trees up to four levels deep, now and then below a chain of up to a hundred directories or beside hundreds of files, of regular files, symbolic links (to files, directories, loops, nothing), fifos and directories, named by ordinary, excluded, nearly excluded, unicode, control and non UTF-8 names; the sources must be exactly the expected regular files and show their relative path; the tree is then trained on and inspected; non-trivial: at least two files of which one is excluded, linked or below a sub directory",
        r.cases(12_000, 200_000),
        || {
            (entries(), prop_oneof![6 => Just(Name::Text("root".into())), 1 => Just(Name::Text("etc".into())), 1 => dir_name()], any::<bool>(),
                prop_oneof![8 => Just(vec![]), 1 => proptest::collection::vec(dir_name(), 4..20), 1 => (prop_oneof![Just("d"), Just("sub.d"), Just("é")], 20usize..110).prop_map(|(n, len)| vec![Name::Text(n.into()); len])], prop_oneof![60 => Just(0u16), 1 => 50u16..700])
                .prop_map(|(entries, root, slash, chain, many)| DirCase { entries, root, slash, chain, many })
        },
        |c, info| {
            let dir = case_dir(&scratch);
            std::fs::write(dir.path().join("outside.log"), "outside\n").unwrap();
            std::fs::create_dir(dir.path().join("outside")).unwrap();
            std::fs::write(dir.path().join("outside/in.log"), "outside\n").unwrap();
            let root = dir.path().join(c.root.os());
            let mut all = vec![];
            let mut top = root.clone();
            top.extend(c.chain.iter().map(|n| {
                // twenty names of 200 bytes exceed PATH_MAX
                n.os().to_str().map(|s| OsString::from(s.chars().take(9).collect::<String>())).unwrap_or_else(|| n.os())
            }));
            create(&top, &c.entries, &root, &mut all);
            for n in 0..c.many {
                let p = top.join(format!("many{}.log", n));
                if p.symlink_metadata().is_err() {
                    std::fs::write(&p, format!("line {}\n", n)).unwrap();
                    all.push(p);
                }
            }
            info.label_if(!c.chain.is_empty(), "deep");
            info.label_if(c.many > 0, "many files");
            let mut given = root.clone().into_os_string();
            if c.slash {
                given.push("/");
            }
            let content = Content::from_path(Path::new(&given)).map_err(|e| format!("not a directory: {}", e))?;
            ensure!(matches!(content, Content::Directory(_)), "the directory is taken for {}", content);
            let want: BTreeSet<&PathBuf> = all.iter().filter(|p| is_source(p) == Some(true)).collect();
            let maybe: BTreeSet<&PathBuf> = all.iter().filter(|p| is_source(p).is_none()).collect();
            let deep = all.iter().any(|p| p.parent() != Some(root.as_path()));
            info.nontrivial_if(all.len() >= 2 && (deep || want.len() < all.len()));
            info.label_if(want.len() < all.len(), "excluded files");
            info.label_if(all.iter().any(|p| p.to_str().is_none()), "not UTF-8");
            info.label_if(want.is_empty(), "no source");
            let sources = match content.get_sources() {
                Ok(s) => s,
                Err(e) => {
                    ensure!(want.is_empty(), "the listing fails with {} sources: {:?}", want.len(), e);
                    return Ok(());
                }
            };
            ensure!(!sources.is_empty(), "an empty list is not an error");
            let mut got: BTreeMap<PathBuf, usize> = BTreeMap::new();
            for s in &sources {
                let Source::Local(_, p) = s else { return Err(format!("not a local source: {:?}", s)) };
                *got.entry(p.clone()).or_default() += 1;
                // shown relative to the directory
                if let Some(full) = p.to_str() {
                    let rel_path = p.strip_prefix(&root).map_err(|_| format!("{:?} is not below the directory", p))?.to_str().unwrap();
                    let shown = format!("{}", s);
                    ensure!(rel(s) == rel_path, "{:?} is shown as {:?}", full, s.get_relative());
                    ensure!(shown.ends_with(s.get_relative()), "{:?} is displayed as {:?}", full, shown);
                }
            }
            for (p, n) in &got {
                ensure!(*n == 1, "{:?} is listed {} times", p, n);
                ensure!(want.contains(p) || maybe.contains(p), "{:?} must not be listed", p);
            }
            for p in &want {
                ensure!(got.contains_key(*p), "{:?} is missing", p);
            }
            // the analysis goes through too
            let groups = Content::group_sources(&[content.clone()]).map_err(|e| format!("no groups: {}", e))?;
            ensure!(groups.values().map(|g| g.len()).sum::<usize>() == sources.len(), "the groups do not hold each source once");
            let model = Model::train(OutputMode::Quiet, vec![content.clone()], hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
            let report = model.report(OutputMode::Quiet, content).map_err(|e| format!("the report fails: {:?}", e))?;
            logreduce_report::render(&report).map_err(|e| format!("the page fails: {}", e))?;
            Ok(())
        },
    );
    let deny = can_deny(&r.scratch);
    let scratch = r.scratch.clone();
    r.sub(
        "locked",
        "trees where one directory, at any depth, can't be listed by the user who runs the analysis: the listing and the training fail, the files of that directory are not silently left out; non-trivial: there are other files",
        r.cases(600, 20_000),
        || (entries(), proptest::collection::vec("[a-z]{1,6}", 1..4), 0u8..3),
        |(entries, path, mode), info| {
            if !deny {
                info.label("permissions not enforced");
                return Ok(());
            }
            let dir = case_dir(&scratch);
            let root = dir.path().join("root");
            let mut all = vec![];
            std::fs::write(dir.path().join("outside.log"), "outside\n").unwrap();
            create(&root, entries, &root, &mut all);
            let mut locked = root.clone();
            for p in path {
                locked.push(format!("{}.d", p));
                if std::fs::create_dir_all(&locked).is_err() {
                    return Ok(());
                }
            }
            std::fs::write(locked.join("hidden.log"), "hidden\n").unwrap();
            info.nontrivial_if(all.iter().any(|p| is_source(p) == Some(true)));
            // neither readable, or only searchable, or only writable
            chmod(&locked, [0, 0o311, 0o222][*mode as usize]);
            let res = unprivileged(|| -> Check {
                let content = Content::from_path(&root).map_err(|e| e.to_string())?;
                if let Ok(s) = content.get_sources() {
                    return Err(format!("{:?} can't be listed, but the listing gives {} sources without an error", locked, s.len()));
                }
                ensure!(Model::train(OutputMode::Quiet, vec![content], hashing_index::new).is_err(), "{:?} can't be listed, but the training succeeds", locked);
                Ok(())
            });
            chmod(&locked, 0o700);
            res.unwrap_or(Ok(()))
        },
    );
    let scratch = r.scratch.clone();
    r.enumerate(
        "suffixes",
        "each excluded suffix, alone, with a prefix and with .gz, and near misses (another letter appended, upper case, suffix in the middle); non-trivial: all",
        SUFFIXES[..30].iter().map(|s| s.to_string()).collect(),
        |s, info| {
            info.nontrivial();
            let dir = case_dir(&scratch);
            let root = dir.path().join("r");
            let mut names = vec![];
            let n = |pre: &str, post: &str| format!("{}{}{}", pre, s, post);
            for (pre, post, kept) in [("x", "", false), ("x", ".gz", false), ("", "", false), ("sub/x", "", false), ("x", "x", true), ("x", ".1", true), ("x", ".log", true), ("x", ".gz.gz", true), ("sub/", "/in.log", true)] {
                let (d, f) = match s.rsplit_once('/') {
                    Some((d, f)) => (format!("{}{}", pre, d), f.to_string() + post),
                    None => (String::new(), n(pre, post)),
                };
                let p = root.join(d).join(&f);
                if p.parent().unwrap().is_file() || p.is_dir() {
                    continue;
                }
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(&p, "x\n").unwrap();
                names.push((p, kept));
            }
            std::fs::write(root.join("kept"), "x\n").unwrap();
            let content = Content::from_path(&root).map_err(|e| e.to_string())?;
            let got: BTreeSet<PathBuf> = content
                .get_sources()
                .map_err(|e| e.to_string())?
                .into_iter()
                .map(|s| match s {
                    Source::Local(_, p) => p,
                    Source::Remote(..) => PathBuf::new(),
                })
                .collect();
            for (p, kept) in names {
                ensure!(got.contains(&p) == kept, "{:?} is {}", p.strip_prefix(&root).unwrap(), if kept { "missing" } else { "listed" });
            }
            Ok(())
        },
    );
}

// ---- C16

fn word() -> impl Strategy<Value = String> {
    // no word ends in gz: a trailing .gz is dropped
    "[a-eh-yA-Z]{2,7}"
}

fn stem() -> impl Strategy<Value = String> {
    (word(), proptest::option::of((prop_oneof![Just("-"), Just("_"), Just(".")], word())), prop_oneof![2 => Just(".log"), 1 => Just(".txt"), 1 => Just(".json"), 2 => Just(""), 1 => Just(".log.txt")])
        .prop_map(|(a, b, ext)| match b {
            Some((sep, b)) => format!("{}{}{}{}", a, sep, b, ext),
            None => format!("{}{}", a, ext),
        })
        .prop_filter("special names", |s| !s.starts_with("pvc-") && !s.starts_with("instance-"))
}

fn dir_word() -> impl Strategy<Value = String> {
    let near = prop_oneof![Just("tripod"), Just("podman"), Just("pods"), Just("apod"), Just("qemus"), Just("aqemu"), Just("Pod")].prop_map(|s: &str| s.to_string());
    let plain = (word(), prop_oneof![2 => Just(""), 1 => Just("-"), 1 => Just("_")], prop_oneof![2 => Just(String::new()), 1 => word()])
        .prop_map(|(a, s, b)| if b.is_empty() { a } else { format!("{}{}{}", a, s, b) })
        .prop_filter("special directories", |s| s != "pod" && s != "qemu" && !(s.len() == 7 && s.chars().all(|c| ('a'..='f').contains(&c))));
    prop_oneof![8 => plain, 1 => near]
}

fn number() -> impl Strategy<Value = String> {
    prop_oneof![Just("1".to_string()), "[0-9]{1,8}"]
}

/// A suffix added by rotation.
fn rotation() -> impl Strategy<Value = String> {
    prop_oneof![
        number().prop_map(|n| format!(".{}", n)),
        "(19|20)[0-9]{2}-[01][0-9]-[0-3][0-9]".prop_map(|d| format!(".{}", d)),
        "20[0-9]{6}".prop_map(|d| format!("-{}", d)),
        "20[0-9]{6}".prop_map(|d| format!(".{}", d)),
        number().prop_map(|n| format!("_{}", n)),
        Just(String::new()),
    ]
}

fn prefix() -> impl Strategy<Value = String> {
    prop_oneof![Just("".to_string()), Just("/".to_string()), "([a-z]{1,5}/){1,3}", "/([a-z0-9]{1,5}/){1,3}", Just("logs/3f2a1bc/".to_string())]
}

fn index(p: &str) -> String {
    IndexName::from_path(p).0
}

fn c16(r: &mut Runner) {
    r.sub(
        "variants",
        "a log name in a directory and two variants of it: rotation suffixes (number, date), .gz, another prefix path, a seven digit hash directory in between, other digits in the directory name; all must have the same index; non-trivial: the variants differ",
        r.cases(240_000, 3_000_000),
        || (stem(), dir_word(), prefix(), prefix(), rotation(), rotation(), any::<(bool, bool)>(), proptest::option::of("[0-9a-f]{7}"), proptest::option::of("[0-9a-f]{7}"), number(), number(), any::<bool>()),
        |(stem, dir, p1, p2, r1, r2, gz, h1, h2, n1, n2, numbered), info| {
            let path = |prefix: &str, rot: &str, gz: bool, hash: &Option<String>, n: &str| {
                let d = if *numbered { format!("{}-{}", dir, n) } else { dir.clone() };
                let hash = hash.as_ref().map(|h| format!("{}/", h)).unwrap_or_default();
                format!("{}{}/{}{}{}{}", prefix, d, hash, stem, rot, if gz { ".gz" } else { "" })
            };
            let a = path(p1, r1, gz.0, h1, n1);
            let b = path(p2, r2, gz.1, h2, n2);
            info.nontrivial_if(a != b);
            info.label_if(gz.0 != gz.1, "compressed");
            info.label_if(h1.is_some() != h2.is_some(), "hash directory");
            info.label_if(p1 != p2, "other prefix");
            ensure!(index(&a) == index(&b), "{:?} has index {:?} and {:?} has {:?}", a, index(&a), b, index(&b));
            // the name alone
            let (a, b) = (format!("{}{}{}", stem, r1, if gz.0 { ".gz" } else { "" }), format!("/{}{}{}", stem, r2, if gz.1 { ".gz" } else { "" }));
            ensure!(index(&a) == index(&b), "{:?} has index {:?} and {:?} has {:?}", a, index(&a), b, index(&b));
            Ok(())
        },
    );
    r.sub(
        "digits",
        "names with digits anywhere in the directory or file name, and the same with other digits; same index; non-trivial: a digit changed",
        r.cases(160_000, 2_000_000),
        || (dir_word(), stem(), proptest::collection::vec((any::<u16>(), number(), number()), 1..4)),
        |(dir, stem, ins), info| {
            let full = format!("{}/{}", dir, stem);
            let (mut a, mut b) = (full.clone(), full);
            let mut at: Vec<usize> = ins.iter().map(|(i, ..)| *i as usize % (a.len() + 1)).collect();
            at.sort();
            at.dedup();
            for (k, pos) in at.iter().enumerate().rev() {
                a.insert_str(*pos, &ins[k].1);
                b.insert_str(*pos, &ins[k].2);
            }
            let special = |s: &str| {
                let (d, f) = s.split_once('/').unwrap();
                (d.len() == 7 && d.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c))) || f.starts_with("k8s_")
            };
            if special(&a) || special(&b) {
                info.label("special name");
                return Ok(());
            }
            info.nontrivial_if(a != b);
            ensure!(index(&a) == index(&b), "{:?} has index {:?} and {:?} has {:?}", a, index(&a), b, index(&b));
            Ok(())
        },
    );
    r.sub(
        "letters",
        "two logs whose directory or file names differ in their letters (independent names, or one letter, extension or word changed); different indexes; non-trivial: all",
        r.cases(240_000, 3_000_000),
        || {
            let change = prop_oneof![
                (stem(), Just(0u8)),
                (dir_word(), Just(1u8)),
                ("[a-y]", Just(2u8)),
                ("[a-y]", Just(3u8)),
                Just((".err".to_string(), 4u8)),
            ];
            (dir_word(), stem(), change, any::<u16>(), rotation(), rotation(), prefix(), prefix())
        },
        |(dir, stem, (text, how), at, r1, r2, p1, p2), info| {
            let (mut d, mut s) = (dir.clone(), stem.clone());
            let insert = |s: &mut String| s.insert_str(*at as usize % (s.len() + 1), text);
            match how {
                0 => s = text.clone(),
                1 => d = text.clone(),
                2 => insert(&mut s),
                3 => insert(&mut d),
                _ => s.push_str(text),
            }
            let letters = |s: &str| s.chars().filter(|c| c.is_ascii_alphabetic()).collect::<String>();
            let hash = |d: &str| d.len() == 7 && d.chars().all(|c| c.is_ascii_digit() || ('a'..='f').contains(&c));
            if (letters(&d), letters(&s)) == (letters(dir), letters(stem)) || hash(&d) || d == "pod" || d == "qemu" || s.starts_with("pvc-") {
                return Ok(());
            }
            info.nontrivial();
            let a = format!("{}{}/{}{}", p1, dir, stem, r1);
            let b = format!("{}{}/{}{}", p2, d, s, r2);
            ensure!(index(&a) != index(&b), "{:?} and {:?} have the same index {:?}", a, b, index(&a));
            ensure!(index(&format!("{}/{}", dir, stem)) != index(stem), "{:?} in a directory has the index of the same name without directory", stem);
            Ok(())
        },
    );
    r.sub(
        "services",
        "pods, k8s services, volumes and qemu instances with other identifiers share the index of the service, those of different services do not; non-trivial: identifiers that differ",
        r.cases(120_000, 1_000_000),
        || (0u8..4, "[a-z]{3,8}", "[a-z]{3,8}", "[a-f0-9]{5,10}-[a-z0-9]{5}", "[a-f0-9]{5,10}-[a-z0-9]{5}", prefix(), prefix(), prop_oneof![Just(".log"), Just(".txt"), Just(".log.gz")].prop_map(|s| s.to_string())),
        |(kind, s1, s2, i1, i2, p1, p2, ext), info| {
            info.nontrivial_if(i1 != i2 || s1 != s2);
            let path = |p: &str, s: &str, i: &str| match kind {
                0 => format!("{}pod/{}-{}{}", p, s, i, ext),
                1 => format!("{}k8s_{}-{}{}", p, s, i, ext),
                2 => format!("{}pvc-{}{}", p, i, ext),
                _ => format!("{}qemu/instance-{}{}", p, i, ext),
            };
            let (a, b) = (path(p1, s1, i1), path(p2, s1, i2));
            ensure!(index(&a) == index(&b), "{:?} has index {:?} and {:?} has {:?}", a, index(&a), b, index(&b));
            if *kind < 2 && s1 != s2 {
                let b = path(p2, s2, i2);
                ensure!(index(&a) != index(&b), "{:?} and {:?} have the same index {:?}", a, b, index(&a));
            }
            Ok(())
        },
    );
    r.sub(
        "total",
        "any string as a path gives an index without panic, and the same through a source whatever its base; non-trivial: a slash and a letter",
        r.cases(160_000, 2_000_000),
        || (prop_oneof![2 => "\\PC{0,30}", 2 => "[a-f0-9/._-]{0,30}", 1 => "(/|\\.|\\.\\.|a|0|gz|-|_|é){0,12}", 1 => "[a-z]{1,5}(/[a-z0-9.]{1,9}){1,4}"], prop_oneof![Just(""), Just("/tmp/x"), Just("/é/")].prop_map(|s| s.to_string())),
        |(p, base), info| {
            info.nontrivial_if(p.contains('/') && p.chars().any(|c| c.is_alphabetic()));
            let i = IndexName::from_path(p);
            ensure!(i.as_str() == i.0 && format!("{}", i) == i.0, "the index name is not shown");
            let s = Source::Local(base.len(), format!("{}{}", base, p).into());
            ensure!(IndexName::from_source(&s) == i, "{:?} has index {:?}, as a source below {:?} {:?}", p, i, base, IndexName::from_source(&s));
            Ok(())
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "groups",
        "baselines of one or two generated trees; each source is in exactly one group, that of its kind; non-trivial: several groups",
        r.cases(6_000, 40_000),
        || (files(10, false), files(10, false)),
        |(a, b), info| {
            let dir = case_dir(&scratch);
            let mut contents = vec![];
            for (i, fs) in [a, b].iter().enumerate() {
                let d = dir.path().join(format!("d{}", i));
                write_tree(&d, fs, 3);
                contents.push(Content::from_path(&d).map_err(|e| e.to_string())?);
            }
            let groups: HashMap<IndexName, Vec<Source>> = Content::group_sources(&contents).map_err(|e| format!("no groups: {:?}", e))?;
            info.nontrivial_if(groups.len() > 1);
            let mut want: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
            for (i, fs) in [a, b].iter().enumerate() {
                for f in fs.iter() {
                    want.entry(f.kind()).or_default().insert(format!("d{}/{}", i, f.name()));
                }
            }
            let want: BTreeSet<BTreeSet<String>> = want.into_values().collect();
            let mut got = BTreeSet::new();
            let mut n = 0;
            for (name, g) in &groups {
                n += g.len();
                for s in g {
                    ensure!(IndexName::from_source(s) == *name, "{} is in the group {}", s, name);
                }
                got.insert(g.iter().map(|s| s.as_str().strip_prefix(&format!("{}/", dir.path().display())).unwrap_or("?").to_string()).collect::<BTreeSet<_>>());
            }
            ensure!(n == a.len() + b.len(), "{} sources are grouped instead of {}", n, a.len() + b.len());
            ensure!(got == want, "the groups are {:?} instead of {:?}", got, want);
            Ok(())
        },
    );
}

// ---- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GzCase {
    base: Base,
    file: FileSpec,
    json: bool,
    flip: Option<(u32, u8)>,
}

/// The four combinations of a plain and a compressed baseline and target give the reference.
fn plain_or_compressed(scratch: &Path, c: &GzCase, info: &mut Info) -> Result<(), String> {
    let dir = case_dir(scratch);
    let text = crate::logs::render_runs(&c.file.runs, c.base.n);
    let mut plain = c.file.clone();
    plain.variant = 0;
    let Some(want) = expected(&c.base, &[plain.clone()], &[plain.name()], true) else {
        info.label("undecided");
        return Ok(());
    };
    info.nontrivial_if(want.anomalies > 0 && want.lines > want.anomalies);
    info.label_if(c.json, "json");
    info.label_if(c.file.members > 1, "several members");
    let name = plain.name();
    let base_text = &c.base.contents(plain.kind() as u8)[0];
    for (i, (gz_base, gz_target)) in [(false, false), (false, true), (true, false), (true, true)].into_iter().enumerate() {
        let (good, bad) = (dir.path().join(format!("good{}", i)), dir.path().join(format!("bad{}", i)));
        let put = |d: &Path, gz: bool, data: &[u8]| {
            if gz {
                write_file(d, &format!("{}.gz", name), &gzip(data, c.file.members))
            } else {
                write_file(d, &name, data)
            }
        };
        put(&good, gz_base, base_text);
        put(&bad, gz_target, &text);
        let content = |p: &Path| Content::from_path(p).map_err(|e| e.to_string());
        let model = Model::train(OutputMode::Quiet, vec![content(&good)?], hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
        let report = model.report(OutputMode::Quiet, content(&bad)?).map_err(|e| format!("no report: {:?}", e))?;
        let mut got = view(&report)?;
        if gz_target {
            let strip = |n: String| n.strip_suffix(".gz").unwrap_or("?").to_string();
            got.logs = got.logs.into_iter().map(|(n, v)| (strip(n), v)).collect();
        }
        let what = |gz: bool| if gz { "compressed" } else { "plain" };
        same_view(&want, &got).map_err(|e| format!("{} baseline, {} target: {}", what(gz_base), what(gz_target), e))?;
    }
    Ok(())
}

fn c17(r: &mut Runner) {
    let scratch = r.scratch.clone();
    r.sub(
        "plain or compressed",
        "a generated log and baseline, each as a plain file and compressed (1-3 members); the four combinations must give the report of the reference detector; plain and JSON names; non-trivial: an anomaly and a known line",
        r.cases(2500, 60_000),
        || {
            (base(), files(1, false), any::<bool>(), 1u8..4).prop_map(|(mut base, files, json, members)| {
                base.kinds = [if json { 3u8 } else { 0 }].into();
                base.split = 1;
                let mut file = files[0].clone();
                file.kind = if json { 3 } else { 0 };
                file.members = members;
                GzCase { base, file, json, flip: None }
            })
        },
        |c, info| plain_or_compressed(&scratch, c, info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "large",
        "the same with a log of 100 kB to several MB, in up to forty members, so that every read buffer is filled many times; non-trivial: an anomaly and a known line",
        r.cases(48, 1500),
        || {
            (base(), files(1, false), 1u8..40, 700u32..9000, 1u32..9).prop_map(|(mut base, files, members, more, step)| {
                base.kinds = [0u8].into();
                base.split = 1;
                let mut file = files[0].clone();
                file.kind = 0;
                file.members = members;
                file.runs.extend((0..more).map(|i| if i % (17 * step) == 0 { crate::logs::Run::New { u: 50 + i % 900, n: 2 } } else { crate::logs::Run::Known { k: i, n: 5 } }));
                GzCase { base, file, json: false, flip: None }
            })
        },
        |c, info| plain_or_compressed(&scratch, c, info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "names",
        "files holding plain text or compressed data, with generated names and directories where gz appears at any place: those whose name ends in .gz read as the decompressed data (or fail if it is not compressed), the others read as the bytes they hold; non-trivial: gz in the path and a content that is not empty",
        r.cases(24_000, 300_000),
        || {
            let part = || prop_oneof![Just("log"), Just("gz"), Just("tgz"), Just("GZ"), Just("gzip"), Just("1"), Just("json"), Just("txt"), Just("tar"), Just("é"), Just("log gz")];
            let name = move || (part(), proptest::collection::vec(part(), 0..4)).prop_map(|(a, b)| std::iter::once(a).chain(b).collect::<Vec<_>>().join("."));
            (proptest::collection::vec(name(), 0..3), name(), "[ -~\\n]{0,300}", any::<bool>(), 1u8..4).prop_map(|(dirs, name, text, compressed, members)| (dirs, name, text, compressed, members))
        },
        |(dirs, name, text, compressed, members), info| {
            let dir = case_dir(&scratch);
            let disk = if *compressed { gzip(text.as_bytes(), *members) } else { text.clone().into_bytes() };
            let rel = dirs.iter().chain(std::iter::once(name)).cloned().collect::<Vec<_>>().join("/");
            write_file(dir.path(), &rel, &disk);
            info.nontrivial_if(rel.contains("gz") && !text.is_empty());
            info.label_if(name.ends_with(".gz"), "compressed name");
            let mut got = vec![];
            use std::io::Read;
            let res = Source::file_open(&dir.path().join(&rel)).map_err(|e| format!("{:?} can't be opened: {:?}", rel, e))?.read_to_end(&mut got);
            if !name.ends_with(".gz") {
                ensure!(res.is_ok() && got == disk, "{:?} does not read as it is: {:?} {}", rel, res, short(&got));
            } else if *compressed {
                ensure!(res.is_ok() && got == text.as_bytes(), "{:?} does not read as its decompressed content: {:?} {}", rel, res, short(&got));
            } else if !text.is_empty() {
                ensure!(res.is_err(), "{:?} is not compressed and reads as {}", rel, short(&got));
            }
            Ok(())
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "damaged",
        "a compressed log that is cut anywhere, has a wrong checksum or an altered byte: the source is listed once as a read error unless what is left decompresses fully, and the anomalies before the damage are those of the reference (altered byte: a prefix of them); non-trivial: damaged with an anomaly before",
        r.cases(4000, 100_000),
        || {
            (base(), files(1, false), prop_oneof![3 => (0u16..1000).prop_map(Fault::Cut), 1 => (980u16..1000).prop_map(Fault::Cut), 1 => Just(Fault::BadSum)], proptest::option::weighted(0.25, (any::<u32>(), 0u8..8)), 1u8..3, 0usize..400).prop_map(
                |(mut base, files, fault, flip, members, more)| {
                    base.kinds = [0u8].into();
                    let mut file = files[0].clone();
                    file.kind = 0;
                    file.variant = 4;
                    file.members = members;
                    // long enough to be damaged in the middle
                    let n = more as u32;
                    file.runs.extend((0..n / 8).map(|i| if i % 3 == 0 { crate::logs::Run::New { u: 50 + i, n: 2 } } else { crate::logs::Run::Known { k: i, n: 5 } }));
                    file.fault = if flip.is_some() { Fault::No } else { fault };
                    GzCase { base, file, json: false, flip }
                },
            )
        },
        |c, info| {
            let dir = case_dir(&scratch);
            let (good, bad) = (dir.path().join("good"), dir.path().join("bad"));
            c.base.write(&good);
            let name = c.file.name();
            let mut disk = c.file.on_disk(c.base.n);
            if let Some((at, bit)) = c.flip {
                let n = disk.len();
                disk[at as usize % n] ^= 1 << bit;
            }
            write_file(&bad, &name, &disk);
            let Some(want) = expected(&c.base, &[c.file.clone()], &[name.clone()], true) else {
                info.label("undecided");
                return Ok(());
            };
            let content = |p: &Path| Content::from_path(p).map_err(|e| e.to_string());
            let model = Model::train(OutputMode::Quiet, vec![content(&good)?], hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
            let report = model.report(OutputMode::Quiet, content(&bad)?).map_err(|e| format!("no report: {:?}", e))?;
            let got = view(&report)?;
            info.nontrivial_if(want.anomalies > 0);
            if c.flip.is_none() {
                info.label("cut or checksum");
                return same_view(&want, &got);
            }
            info.label("altered byte");
            let mut all = vec![];
            let damaged = gz_prefix(&disk, &mut all);
            ensure!(got.read_errors.contains(&name) == damaged, "the file is{} damaged and the read errors are {:?}", if damaged { "" } else { " not" }, got.read_errors);
            if damaged {
                // the altered data comes after what was decompressed, and is never delivered
                let got = got.logs.get(&name).map(|l| l.0.clone()).unwrap_or_default();
                let want = want.logs.get(&name).map(|l| l.0.clone()).unwrap_or_default();
                let n = got.len().saturating_sub(1).min(want.len());
                if all == crate::logs::render_runs(&c.file.runs, c.base.n) {
                    same_found(&name, &want, &got)?;
                } else if c.file.readable(c.base.n).0.starts_with(&all) {
                    ensure!(got.len() <= want.len(), "more anomalies than in the file");
                    same_found(&name, &want[..n], &got[..n])?;
                }
            }
            Ok(())
        },
    );
}
