//! C20-C21: the command line program.
use crate::engine::*;
use crate::gen::reference_split;
use crate::logs::*;
use crate::trees::*;
use crate::{ensure, prop, Prop};
use logreduce_model::Content;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![
        prop("C20", "exploration", c20, &["the reference detector of C10 decides the anomalies", "lines of the tracing log on the standard output are ignored"]),
        prop("C21", "exploration", c21, &["the reference detector of C10 decides the anomalies"]),
    ]
}

pub struct Out {
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

impl Out {
    pub fn crashed(&self) -> bool {
        self.code.is_none() || self.code == Some(101) || self.stderr.contains("panicked at")
    }
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("exe").parent().unwrap().join("logreduce")
}

/// Run the program in a scratch directory.
pub fn logreduce(cwd: &Path, args: &[OsString], nobody: bool) -> Out {
    logreduce_env(cwd, args, nobody, &[])
}

pub fn logreduce_env(cwd: &Path, args: &[OsString], nobody: bool, env: &[(&str, &str)]) -> Out {
    let mut c = Command::new(exe());
    c.args(args).env_clear().env("HOME", cwd).env("XDG_CACHE_HOME", cwd.join("cache")).env("NO_PROXY", "*").current_dir(cwd).stdin(Stdio::null());
    c.envs(env.iter().copied());
    if nobody {
        c.uid(65534);
    }
    let out = c.output().expect("run logreduce");
    Out {
        code: out.status.code().filter(|_| out.status.signal().is_none()),
        stdout: String::from_utf8_lossy(&out.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&out.stderr).into_owned(),
    }
}

/// As above, with a terminal as standard output.
fn logreduce_tty(cwd: &Path, args: &[OsString], nobody: bool) -> Option<Out> {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    let (master, slave) = unsafe {
        let (mut m, mut s) = (0, 0);
        let mut t: libc::termios = std::mem::zeroed();
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) != 0 {
            return None;
        }
        // no translation of the line returns
        libc::tcgetattr(s, &mut t);
        libc::cfmakeraw(&mut t);
        libc::tcsetattr(s, libc::TCSANOW, &t);
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        (std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s))
    };
    let mut c = Command::new(exe());
    c.args(args).env_clear().env("HOME", cwd).env("XDG_CACHE_HOME", cwd.join("cache")).current_dir(cwd).stdin(Stdio::null());
    c.stdout(Stdio::from(slave)).stderr(Stdio::piped());
    if nobody {
        c.uid(65534);
    }
    let mut child = c.spawn().expect("run logreduce");
    drop(c);
    let err = child.stderr.take().unwrap();
    let errors = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = { err }.read_to_end(&mut v);
        v
    });
    let mut stdout = vec![];
    // EIO is the end of a terminal
    let _ = { master }.read_to_end(&mut stdout);
    let status = child.wait().expect("wait");
    Some(Out {
        code: status.code().filter(|_| status.signal().is_none()),
        stdout: String::from_utf8_lossy(&stdout).into_owned(),
        stderr: String::from_utf8_lossy(&errors.join().unwrap()).into_owned(),
    })
}

/// Can the program be run by an unprivileged user?
fn can_drop(scratch: &Path) -> bool {
    can_deny(scratch)
        && Command::new(exe())
            .arg("--version")
            .uid(65534)
            .output()
            .is_ok_and(|o| o.status.success())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Context(usize, String),
    Anomaly(f64, usize, String),
    Sep,
    /// a message naming a source
    Message(String),
}

fn numbered(l: &str) -> Option<(usize, &str)> {
    let (n, text) = l.split_once(" | ")?;
    (!n.is_empty() && n.bytes().all(|b| b.is_ascii_digit())).then_some(())?;
    Some((n.parse().ok()?, text))
}

fn parse(stdout: &str) -> Vec<Item> {
    let mut out = vec![];
    for l in stdout.split_terminator('\n') {
        if l == "--" {
            out.push(Item::Sep);
            continue;
        }
        if let Some((n, t)) = l.strip_prefix("   ").and_then(numbered) {
            out.push(Item::Context(n, t.to_string()));
            continue;
        }
        if let Some((d, rest)) = l.split_once(' ') {
            if let (Ok(d), Some((n, t))) = (d.parse::<u32>(), numbered(rest)) {
                out.push(Item::Anomaly(d as f64, n, t.to_string()));
                continue;
            }
        }
        if ["INFO", "WARN", "ERROR"].iter().any(|k| l.contains(k)) && (l.starts_with('\x1b') || l.starts_with("20")) {
            continue;
        }
        out.push(Item::Message(l.to_string()));
    }
    out
}

/// What is printed for a source.
fn print_source(found: &[Found], failed: Option<&str>, out: &mut Vec<Item>) {
    let mut last = None;
    for f in found {
        let start = f.pos.saturating_sub(1 + f.before.len());
        if last.is_some_and(|l| l != start) {
            out.push(Item::Sep);
        }
        for (i, l) in f.before.iter().enumerate() {
            out.push(Item::Context(start + 1 + i, l.clone()));
        }
        out.push(Item::Anomaly(f.distance * 99.0, f.pos, f.line.clone()));
        for (i, l) in f.after.iter().enumerate() {
            out.push(Item::Context(f.pos + 1 + i, l.clone()));
        }
        last = Some(f.pos + f.after.len());
    }
    if let Some(name) = failed {
        out.push(Item::Message(name.to_string()));
    }
}

fn print_view(v: &View, order: &[String]) -> Vec<Item> {
    let mut out = vec![];
    for name in order {
        let found = v.logs.get(name).map(|l| l.0.clone()).unwrap_or_default();
        let failed = (v.read_errors.contains(name) || v.index_errors.contains(name)).then_some(name.as_str());
        print_source(&found, failed, &mut out);
    }
    out
}

fn same_items(want: &[Item], got: &[Item]) -> Check {
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        let same = match (w, g) {
            (Some(Item::Anomaly(d, n, l)), Some(Item::Anomaly(e, m, k))) => n == m && l == k && (d - e).abs() < 0.52,
            (Some(Item::Message(name)), Some(Item::Message(m))) => m.contains(name.as_str()),
            (w, g) => w == g,
        };
        ensure!(same, "item {} of the output is {} instead of {}", i, short(g), short(w));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Diff {
    base: Base,
    files: Vec<FileSpec>,
    dirs: u8,
    single: bool,
    slash: bool,
}

fn diff() -> impl Strategy<Value = Diff> {
    (base(), files(6, true), 1u8..4, proptest::bool::weighted(0.3), any::<bool>()).prop_map(|(mut base, mut files, dirs, single, slash)| {
        if single {
            files.truncate(1);
            let k = *base.kinds.iter().next().unwrap();
            base.kinds = [k].into();
            base.split = 1;
        }
        Diff { base, files, dirs, single, slash }
    })
}

/// The baselines on disk, as arguments.
fn write_base(dir: &Path, base: &Base, dirs: u8, single: bool) -> Vec<OsString> {
    if single {
        let (_, name, data) = base.files().remove(0);
        let data = if name.ends_with(".gz") { gzip(&data, 1) } else { data };
        write_file(&dir.join("good"), &name, &data);
        return vec![dir.join("good").join(name).into()];
    }
    let mut out = BTreeSet::new();
    for (i, (_, name, data)) in base.files().into_iter().enumerate() {
        let d = dir.join(format!("good{}", i as u8 % dirs.max(1)));
        let data = if name.ends_with(".gz") { gzip(&data, 1) } else { data };
        write_file(&d, &name, &data);
        out.insert(d.into_os_string());
    }
    out.into_iter().collect()
}

/// The names of the sources, in the order of the listing.
fn order_of(p: &Path) -> Result<Vec<String>, String> {
    let c = Content::from_path(p).map_err(|e| e.to_string())?;
    Ok(c.get_sources().map_err(|e| e.to_string())?.iter().map(rel).collect())
}

fn check_diff(c: &Diff, scratch: &Path, deny: bool, tty: bool, level: Option<&str>, info: &mut Info) -> Check {
    let mut c = c.clone();
    if !deny {
        info.label("permissions not enforced");
        c.files.iter_mut().filter(|f| f.fault == Fault::Unreadable).for_each(|f| f.fault = Fault::No);
    }
    let dir = case_dir(scratch);
    let mut args: Vec<OsString> = vec!["diff".into()];
    args.extend(write_base(dir.path(), &c.base, c.dirs, c.single));
    let bad = dir.path().join("bad");
    write_tree(&bad, &c.files, c.base.n);
    let order = if c.single { vec![c.files[0].name()] } else { order_of(&bad)? };
    let mut target = if c.single { bad.join(c.files[0].name()) } else { bad }.into_os_string();
    if c.slash && !c.single {
        target.push("/");
    }
    args.push(target);
    let Some(want) = expected(&c.base, &c.files, &order, false) else {
        info.label("undecided");
        return Ok(());
    };
    info.nontrivial_if(want.anomalies > 0);
    info.label_if(!want.read_errors.is_empty(), "read errors");
    info.label_if(!want.index_errors.is_empty(), "no baseline");
    info.label_if(c.single, "single file");
    let out = if tty {
        match logreduce_tty(dir.path(), &args, deny) {
            None => {
                info.label("no terminal");
                return Ok(());
            }
            Some(out) => out,
        }
    } else {
        let env: Vec<(&str, &str)> = level.map(|l| ("LOGREDUCE_LOG", l)).into_iter().collect();
        logreduce_env(dir.path(), &args, deny, &env)
    };
    ensure!(!out.crashed(), "the program crashes: {}", short(&out.stderr));
    ensure!(out.code == Some(0), "the program fails with {:?}: {}", out.code, short(&out.stderr));
    let (items, got) = (print_view(&want, &order), parse(&out.stdout));
    if !tty {
        return same_items(&items, &got);
    }
    // the progress is mixed with the messages: they are looked up in the whole output
    let message = |i: &Item| matches!(i, Item::Message(_));
    same_items(&items.iter().filter(|i| !message(i)).cloned().collect::<Vec<_>>(), &got.iter().filter(|i| !message(i)).cloned().collect::<Vec<_>>())?;
    for name in want.read_errors.iter().chain(&want.index_errors) {
        ensure!(out.stdout.contains(name.as_str()), "{} is not named: {}", name, short(&out.stdout));
    }
    let last: Vec<&str> = out.stdout.lines().last().unwrap_or_default().split_whitespace().collect();
    let n = last.len();
    ensure!(n >= 3 && last[n - 1] == want.anomalies.to_string() && last[n - 3] == want.lines.to_string(), "the summary of {} lines and {} anomalies is {:?}", want.lines, want.anomalies, last);
    Ok(())
}

fn check_debug(files: &[FileSpec], text: &str, scratch: &Path, info: &mut Info) -> Check {
    let dir = case_dir(scratch);
    let bad = dir.path().join("bad");
    let mut files = files.to_vec();
    files.iter_mut().filter(|f| matches!(f.fault, Fault::Unreadable | Fault::Cut(_) | Fault::BadSum)).for_each(|f| f.fault = Fault::No);
    write_tree(&bad, &files, 20);
    let run = |args: &[&std::ffi::OsStr]| -> Result<String, String> {
        let args: Vec<OsString> = args.iter().map(|a| a.into()).collect();
        let out = logreduce(dir.path(), &args, false);
        ensure!(!out.crashed() && out.code == Some(0), "logreduce {:?} fails with {:?}: {}", args, out.code, short(&out.stderr));
        Ok(out.stdout)
    };
    let f = &files[0];
    let pieces = reference_split(&FileSpec { variant: 0, ..f.clone() }.on_disk(20), f.is_json());
    info.nontrivial_if(pieces.len() > 1);
    let mut want = String::new();
    for p in &pieces {
        match std::str::from_utf8(&p.bytes) {
            Ok(t) => want += &format!("{} | {}\n", p.line, t),
            Err(e) => want += &format!("{} | error: {}\n", p.line, e),
        }
    }
    let path = bad.join(f.name());
    let got = run(&["debug-iterator".as_ref(), path.as_os_str()])?;
    ensure!(got == want, "the pieces of {} are {} instead of {}", f.name(), short(&got), short(&want));
    let got = run(&["debug-tokenizer".as_ref(), "--".as_ref(), text.as_ref()])?;
    ensure!(got.trim_end() == logreduce_tokenizer::process(text), "the tokens of {:?} are {:?}", text, got);
    let name = f.name();
    for p in [name.as_str(), text] {
        let got = run(&["debug-indexname".as_ref(), "--".as_ref(), p.as_ref()])?;
        ensure!(got.trim_end() == logreduce_model::IndexName::from_path(p).as_str(), "the index name of {:?} is {:?}", p, got);
    }
    let got = run(&["debug-groups".as_ref(), bad.as_os_str()])?;
    let sources = Content::from_path(&bad).and_then(|c| c.get_sources()).map_err(|e| e.to_string())?;
    let mut group = String::new();
    let mut seen = vec![];
    for l in got.lines() {
        if let Some(n) = l.strip_prefix("IndexName(") {
            group = n.split('"').nth(1).unwrap_or_default().to_string();
        }
        if l.trim_start().starts_with('"') {
            seen.push((l.trim().trim_matches(|c| c == ',' || c == '"').to_string(), group.clone()));
        }
    }
    seen.sort();
    let mut want: Vec<_> = sources.iter().map(|s| (s.as_str().to_string(), logreduce_model::IndexName::from_source(s).0)).collect();
    want.sort();
    ensure!(seen == want, "the groups are {:?} instead of {:?}", seen, want);
    Ok(())
}

/// Arguments, most of them wrong.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Args {
    command: u8,
    words: Vec<Word>,
    model: Option<Word>,
    report: Option<Word>,
    extra: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Word {
    Good,
    Dir,
    Empty,
    Missing,
    EmptyDir,
    Pipe,
    BadModel,
    Url(String),
    Text(String),
    Bytes(Vec<u8>),
}

fn word() -> impl Strategy<Value = Word> {
    prop_oneof![
        3 => Just(Word::Good),
        2 => Just(Word::Dir),
        1 => Just(Word::Empty),
        2 => Just(Word::Missing),
        1 => Just(Word::EmptyDir),
        1 => Just(Word::BadModel),
        3 => prop_oneof![
            Just("http://".to_string()), Just("http:///x".to_string()), Just("https://".to_string()), Just("http://[::1".to_string()), Just("http://a b/".to_string()), Just("http://:80/".to_string()), Just("https://%/".to_string()),
            Just("http://127.0.0.1:1/logs/".to_string()), Just("http://127.0.0.1:1/f.log".to_string()), Just("http://127.0.0.1:1/zuul/t/x/build/0123456789abcdef0123456789abcdef".to_string()),
            Just("http://127.0.0.1:99999/".to_string()), Just("httpfoo".to_string()), Just("http".to_string()), Just("http:/".to_string()), Just("https:x".to_string()), Just("http://localhost:notaport/".to_string()),
            Just("http://127.0.0.1:1/t/build/0123456789abcdef0123456789abcdef".to_string()), Just("http://127.0.0.1:1/build/0123456789abcdef0123456789abcdef/".to_string())
        ].prop_map(Word::Url),
        2 => "[ -~é漢]{0,12}".prop_map(Word::Text),
        1 => proptest::collection::vec(1u8..=255, 1..6).prop_map(Word::Bytes),
    ]
}

impl Word {
    fn arg(&self, dir: &Path) -> OsString {
        match self {
            Word::Good => dir.join("good.log").into(),
            Word::Dir => dir.join("logs").into(),
            Word::Empty => dir.join("empty").into(),
            Word::Missing => dir.join("missing/x.log").into(),
            Word::EmptyDir => dir.join("void").into(),
            Word::Pipe => dir.join("pipe").into(),
            Word::BadModel => dir.join("bad.model").into(),
            Word::Url(s) => s.into(),
            // never an existing place outside of the scratch directory
            Word::Text(s) => s.replace('/', "_").replace("..", "_").into(),
            Word::Bytes(b) => OsString::from_vec(b.iter().map(|c| if matches!(c, b'/' | b'-') { b'_' } else { *c }).collect()),
        }
    }
    /// Is it certainly not something that can be analysed?
    fn wrong(&self) -> bool {
        // a remote file that is refused is a source that cannot be read, not a wrong argument
        matches!(self, Word::Missing | Word::EmptyDir) || matches!(self, Word::Url(u) if !u.ends_with(".log")) || matches!(self, Word::Bytes(b) if std::str::from_utf8(b).is_err())
    }
}

const COMMANDS: [&str; 12] = ["diff", "path", "url", "train", "test", "diff", "debug-groups", "debug-tokenizer", "debug-indexname", "debug-iterator", "help", "bogus"];

fn check_args(c: &Args, scratch: &Path, info: &mut Info) -> Check {
    let dir = case_dir(scratch);
    let d = dir.path();
    write_file(d, "good.log", &render_runs(&[Run::Known { k: 0, n: 20 }], 20));
    write_file(d, "good.log.0", &render_runs(&[Run::Known { k: 0, n: 20 }], 20));
    write_file(d, "logs/a.log", &render_runs(&[Run::Known { k: 0, n: 20 }], 20));
    write_file(d, "empty", b"");
    write_file(d, "bad.model", b"not a model");
    std::fs::create_dir(d.join("void")).unwrap();
    let mut args: Vec<OsString> = vec![];
    if let Some(m) = &c.model {
        args.extend(["--model".into(), m.arg(d)]);
    }
    if let Some(m) = &c.report {
        args.extend(["--report".into(), m.arg(d)]);
    }
    match c.extra {
        1 => args.push("--bogus".into()),
        2 => args.push("--version".into()),
        3 => args.push("--".into()),
        _ => {}
    }
    let command = COMMANDS[c.command as usize % COMMANDS.len()];
    args.push(command.into());
    args.extend(c.words.iter().map(|w| w.arg(d)));
    let out = logreduce(d, &args, false);
    ensure!(!out.crashed(), "logreduce {:?} crashes: {}", args, short(&out.stderr));
    let plain = c.extra == 0 && c.words.iter().all(|w| !matches!(w.arg(d).as_bytes().first(), None | Some(b'-')));
    let must_fail = match command {
        _ if !plain => false,
        "diff" => c.words.is_empty() || c.words.last().unwrap().wrong() || (c.model.is_none() && c.words.iter().any(Word::wrong)),
        "path" | "url" => c.words.len() != 1 || (command == "url" && !matches!(c.words[0], Word::Url(_))) || c.words[0].wrong(),
        "train" => c.model.is_none() || c.words.is_empty() || c.words.iter().any(Word::wrong),
        "test" => true,
        "bogus" => true,
        _ => false,
    };
    info.nontrivial_if(must_fail);
    info.label_if(!must_fail, "free");
    info.label_if(out.code == Some(0), "exit 0");
    if must_fail {
        ensure!(out.code.is_some_and(|c| c != 0), "logreduce {:?} succeeds: {}", args, short(&out.stdout));
        ensure!(!out.stderr.trim().is_empty(), "logreduce {:?} fails without message", args);
    }
    Ok(())
}

fn c20(r: &mut Runner) {
    let deny = can_drop(&r.scratch);
    let scratch = r.scratch.clone();
    r.sub(
        "diff",
        "logreduce diff over generated baselines (1-3 directories or one file) and targets (a directory of 1-6 files, some unreadable, damaged or without baseline, or one file); the whole output is parsed and compared with the anomalies, contexts, line numbers and separators computed by the reference detector, in source order; non-trivial: an anomaly",
        r.cases(3000, 60_000),
        diff,
        |c, info| check_diff(c, &scratch, deny, false, None, info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "terminal",
        "as diff, with a terminal as standard output: the same anomalies, contexts and separators, each on its line, the same sources named, and a summary with the number of lines read and of anomalies; non-trivial: an anomaly",
        r.cases(800, 20_000),
        diff,
        |c, info| check_diff(c, &scratch, deny, true, None, info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "logged",
        "as diff, with LOGREDUCE_LOG set to a level: the logs go elsewhere, the standard output is the same; non-trivial: an anomaly",
        r.cases(400, 10_000),
        || (diff(), proptest::sample::select(vec!["error", "warn", "info", "debug", "trace"])).prop_map(|(d, l)| (d, l.to_string())),
        |(c, level), info| check_diff(c, &scratch, deny, false, Some(level), info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "debug",
        "the debug commands over generated files and texts: debug-iterator prints the numbered pieces of the file, debug-tokenizer the tokens of the line, debug-indexname the index name of the path and debug-groups every source once, next to the others of its index; non-trivial: a file with two pieces",
        r.cases(600, 10_000),
        || (files(4, true), "[ -~é]{0,40}"),
        |(files, text), info| check_debug(files, text, &scratch, info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "arguments",
        "generated command lines: missing, empty and unreadable files and directories, malformed and refused urls, arguments that are not UTF-8, options with wrong values; no panic, and the certainly wrong ones exit with a non-zero status and a message; non-trivial: certainly wrong",
        r.cases(2500, 40_000),
        || {
            (0u8..12, proptest::collection::vec(word(), 0..4), proptest::option::weighted(0.3, word()), proptest::option::weighted(0.2, word()), prop_oneof![6 => Just(0u8), 1 => 1u8..4])
                .prop_map(|(command, mut words, model, report, extra)| {
                    // the parser of the clap crate panics when it reports an unknown option next to an argument that is not UTF-8
                    if extra == 1 || COMMANDS[command as usize] == "bogus" || words.iter().any(|w| matches!(w, Word::Text(t) if t.starts_with('-'))) {
                        words.iter_mut().filter(|w| matches!(w, Word::Bytes(_))).for_each(|w| *w = Word::Missing)
                    }
                    Args { command, words, model, report, extra }
                })
        },
        |c, info| check_args(c, &scratch, info),
    );
}

// ---- C21

/// A history of commands over two baselines, two targets and two model files.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    bases: Vec<Base>,
    files: Vec<FileSpec>,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Train { base: u8, model: u8 },
    /// diff against the baselines, maybe with a model
    Diff { base: u8, model: Option<u8>, report: bool },
    /// path: the baseline is discovered or comes from the model
    Path { dir: bool, model: Option<u8>, report: bool },
    /// overwrite the model with garbage, or remove it
    Damage { model: u8, how: u8 },
    /// the model file is in a missing directory
    Nowhere { base: u8 },
}

fn history() -> impl Strategy<Value = History> {
    let m = || 0u8..2;
    let op = prop_oneof![
        3 => (0u8..2, m()).prop_map(|(base, model)| Op::Train { base, model }),
        3 => (0u8..2, proptest::option::of(m()), proptest::bool::weighted(0.25)).prop_map(|(base, model, report)| Op::Diff { base, model, report }),
        5 => (any::<bool>(), proptest::option::weighted(0.8, m()), proptest::bool::weighted(0.25)).prop_map(|(dir, model, report)| Op::Path { dir, model, report }),
        1 => (m(), 0u8..3).prop_map(|(model, how)| Op::Damage { model, how }),
        1 => (0u8..2).prop_map(|base| Op::Nowhere { base }),
    ];
    (proptest::collection::vec(base(), 2..=2), files(4, false), proptest::collection::vec(op, 1..8)).prop_map(|(bases, files, ops)| History { bases, files, ops })
}

#[derive(Clone, PartialEq, Debug)]
enum ModelFile {
    Absent,
    Base(usize),
    /// trained on the discovered baseline of the file
    Discovered,
    Garbage,
}

fn page_has(page: &str, found: &[&Found]) -> Check {
    let text = crate::report::decode(page);
    for f in found {
        ensure!(text.contains(&f.line), "the html report lacks the anomaly {}", short(&f.line));
    }
    Ok(())
}

fn check_history(h: &History, scratch: &Path, info: &mut Info) -> Check {
    let dir = case_dir(scratch);
    let d = dir.path();
    let bases: Vec<Vec<OsString>> = h.bases.iter().enumerate().map(|(i, b)| write_base(&d.join(format!("b{}", i)), b, 1, false)).collect();
    let bad = d.join("bad");
    // the lines of the target are made for the first baseline
    write_tree(&bad, &h.files, h.bases[0].n);
    let order = order_of(&bad)?;
    // the discovered baseline of the file, out of the tree
    let single = d.join("single.log");
    let single_data = h.files[0].readable(h.bases[0].n).0;
    std::fs::write(&single, &single_data).unwrap();
    let zero_data = render_runs(&[Run::Known { k: 0, n: 12 }], h.bases[0].n);
    std::fs::write(d.join("single.log.0"), &zero_data).unwrap();
    let mut models = [ModelFile::Absent, ModelFile::Absent];
    let model_path = |m: u8| d.join(format!("m{}.bin", m));

    // expected findings of a target with a model: None when undecided
    let find = |model: &ModelFile, dir_target: bool, shared: bool| -> Option<(Vec<Item>, Vec<Found>)> {
        match (model, dir_target) {
            (ModelFile::Base(b), true) => {
                let v = expected_lines(&h.bases[*b], &h.files, &order, shared, h.bases[0].n)?;
                let all = v.logs.values().flat_map(|l| l.0.clone()).collect();
                Some((print_view(&v, &order), all))
            }
            (ModelFile::Base(b), false) => {
                // single.log is none of the kinds
                let b = &h.bases[*b];
                if b.kinds.len() != 1 {
                    return Some((vec![Item::Message("single.log".into())], vec![]));
                }
                let k = *b.kinds.iter().next().unwrap();
                let mut r = Reference::new(&b.contents(k), KINDS[k as usize].ends_with(".json"));
                let a = r.detect(&reference_split(&single_data, false), &mut HashSet::new())?;
                let mut items = vec![];
                print_source(&a, None, &mut items);
                Some((items, a))
            }
            (ModelFile::Discovered, dir_target) => {
                let mut r = Reference::new(&[zero_data.clone()], false);
                if !dir_target {
                    let a = r.detect(&reference_split(&single_data, false), &mut HashSet::new())?;
                    let mut items = vec![];
                    print_source(&a, None, &mut items);
                    return Some((items, a));
                }
                let mut items = vec![];
                let mut all = vec![];
                let mut seen: std::collections::HashMap<usize, HashSet<String>> = Default::default();
                for name in &order {
                    let f = h.files.iter().find(|f| f.name() == *name)?;
                    let (data, _) = f.readable(h.bases[0].n);
                    let s = seen.entry(f.kind()).or_default();
                    if !shared {
                        s.clear();
                    }
                    let a = r.detect(&reference_split(&data, f.is_json()), s)?;
                    print_source(&a, None, &mut items);
                    all.extend(a);
                }
                Some((items, all))
            }
            _ => None,
        }
    };

    for (i, op) in h.ops.iter().enumerate() {
        let at = |e: String| format!("step {} ({:?}): {}", i, op, e);
        let mut args: Vec<OsString> = vec![];
        let page = d.join("report.html");
        let _ = std::fs::remove_file(&page);
        // Ok(Some(model to use)), Err: the command must fail
        let mut next = models.clone();
        let (want, report, target_dir) = match op {
            Op::Train { base, model } => {
                args.extend(["--model".into(), model_path(*model).into(), "train".into()]);
                args.extend(bases[*base as usize].clone());
                next[*model as usize] = ModelFile::Base(*base as usize);
                (Ok(None), false, false)
            }
            Op::Diff { base, model, report } => {
                if let Some(m) = model {
                    args.extend(["--model".into(), model_path(*m).into()]);
                }
                if *report {
                    args.extend(["--report".into(), page.clone().into()]);
                }
                args.push("diff".into());
                args.extend(bases[*base as usize].clone());
                args.push(bad.clone().into());
                let direct = ModelFile::Base(*base as usize);
                match model {
                    Some(m) if models[*m as usize] != ModelFile::Absent => (Err(()), *report, true),
                    Some(m) => {
                        next[*m as usize] = direct.clone();
                        (Ok(Some(direct)), *report, true)
                    }
                    None => (Ok(Some(direct)), *report, true),
                }
            }
            Op::Path { dir, model, report } => {
                if let Some(m) = model {
                    args.extend(["--model".into(), model_path(*m).into()]);
                }
                if *report {
                    args.extend(["--report".into(), page.clone().into()]);
                }
                args.push("path".into());
                args.push(if *dir { bad.clone() } else { single.clone() }.into());
                let state = model.map(|m| models[m as usize].clone()).unwrap_or(ModelFile::Absent);
                let want = match state {
                    ModelFile::Garbage => Err(()),
                    ModelFile::Absent if *dir => Err(()),
                    ModelFile::Absent => {
                        if let Some(m) = model {
                            next[*m as usize] = ModelFile::Discovered;
                        }
                        Ok(Some(ModelFile::Discovered))
                    }
                    m => Ok(Some(m)),
                };
                (want, *report, *dir)
            }
            Op::Damage { model, how } => {
                let p = model_path(*model);
                let data = std::fs::read(&p).unwrap_or_default();
                match how {
                    0 => {
                        let _ = std::fs::remove_file(&p);
                        models[*model as usize] = ModelFile::Absent;
                    }
                    1 => {
                        std::fs::write(&p, b"garbage").unwrap();
                        models[*model as usize] = ModelFile::Garbage;
                    }
                    _ => {
                        std::fs::write(&p, &data[..data.len() / 2]).unwrap();
                        models[*model as usize] = ModelFile::Garbage;
                    }
                }
                continue;
            }
            Op::Nowhere { base } => {
                args.extend(["--model".into(), d.join("no/such/place.bin").into(), "train".into()]);
                args.extend(bases[*base as usize].clone());
                (Err(()), false, false)
            }
        };
        let before: Vec<Option<Vec<u8>>> = (0..2).map(|m| std::fs::read(model_path(m)).ok()).collect();
        let out = logreduce(d, &args, false);
        ensure!(!out.crashed(), "{}", at(format!("the program crashes: {}", short(&out.stderr))));
        match want {
            Err(()) => {
                ensure!(out.code != Some(0), "{}", at(format!("the command succeeds: {}", short(&out.stdout))));
                ensure!(!out.stderr.trim().is_empty(), "{}", at("no error message".into()));
                ensure!(parse(&out.stdout).iter().all(|i| matches!(i, Item::Message(_))), "{}", at(format!("a refused command prints {}", short(&out.stdout))));
                info.label("refused");
            }
            Ok(model) => {
                ensure!(out.code == Some(0), "{}", at(format!("exit status {:?}: {}", out.code, short(&out.stderr))));
                match model {
                    Some(m) => match find(&m, target_dir, report) {
                        Some((items, found)) => {
                            if report {
                                let html = std::fs::read_to_string(&page).map_err(|e| at(format!("no report: {}", e)))?;
                                page_has(&html, &found.iter().collect::<Vec<_>>()).map_err(at)?;
                                info.label("html");
                            } else {
                                same_items(&items, &parse(&out.stdout)).map_err(at)?;
                            }
                            info.nontrivial_if(!found.is_empty() && i > 0);
                        }
                        None => info.label("undecided"),
                    },
                    None => ensure!(parse(&out.stdout).is_empty(), "{}", at(format!("training prints {}", short(&out.stdout)))),
                }
            }
        }
        for m in 0..2u8 {
            let now = std::fs::read(model_path(m)).ok();
            let (old, new) = (&models[m as usize], &next[m as usize]);
            let written = matches!(op, Op::Train { model, .. } if *model == m) || (*old == ModelFile::Absent && *new != ModelFile::Absent);
            if written {
                ensure!(now.is_some(), "{}", at(format!("the model m{} is not saved", m)));
            } else {
                ensure!(now == before[m as usize], "{}", at(format!("the model file m{} changes", m)));
            }
        }
        models = next;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Set {
    good: u32,
    runs: Vec<Run>,
    edit: Edit,
    other: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Same,
    Part(u16, u8, u8),
    Spaces(u16),
    Drop(u16),
    Add(u16, String),
    Dup(u16),
    Swap(u16),
    Change(u16, u8),
    /// a line around the anomaly
    Near(u16, u8),
    NoGood,
    NoFail,
    NoInf,
    BadInf,
}

fn set() -> impl Strategy<Value = Set> {
    let edit = prop_oneof![
        4 => Just(Edit::Same),
        3 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(i, a, b)| Edit::Part(i, a, b)),
        2 => any::<u16>().prop_map(Edit::Spaces),
        3 => any::<u16>().prop_map(Edit::Drop),
        2 => (any::<u16>(), "[a-z]{4,9} [a-z]{4,9}").prop_map(|(i, t)| Edit::Add(i, t)),
        1 => any::<u16>().prop_map(Edit::Dup),
        2 => any::<u16>().prop_map(Edit::Swap),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(i, c)| Edit::Change(i, c)),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(i, c)| Edit::Near(i, c)),
        1 => prop_oneof![Just(Edit::NoGood), Just(Edit::NoFail), Just(Edit::NoInf), Just(Edit::BadInf)],
    ];
    (1u32..40, runs(true), edit, any::<u8>()).prop_map(|(good, runs, edit, other)| {
        // keep the data sets small
        let runs = runs.into_iter().filter(|r| !matches!(r, Run::Known { n, .. } | Run::New { n, .. } | Run::Dup { n, .. } if *n > 200)).collect();
        Set { good, runs, edit, other }
    })
}

fn set_mostly_right() -> impl Strategy<Value = Set> {
    (set(), proptest::bool::weighted(0.03)).prop_map(|(mut s, wrong)| {
        if !wrong {
            s.edit = Edit::Same;
        }
        s
    })
}

/// Write a data set; whether it has to succeed.
fn write_set(dir: &Path, s: &Set) -> Option<(bool, usize)> {
    let good = baseline_sources(s.good, 1, false).remove(0);
    let fail = render_runs(&s.runs, s.good);
    let mut r = Reference::new(&[good.clone()], false);
    let found = r.detect(&reference_split(&fail, false), &mut HashSet::new())?;
    let mut lines: Vec<String> = found.iter().map(|f| f.line.clone()).collect();
    let n = lines.len();
    let at = |i: &u16| *i as usize % n.max(1);
    match &s.edit {
        Edit::Part(i, a, b) if n > 0 => {
            let l = &lines[at(i)];
            if l.is_ascii() {
                let (x, y) = (*a as usize % (l.len() + 1), *b as usize % (l.len() + 1));
                lines[at(i)] = l[x.min(y)..x.max(y)].to_string();
            }
        }
        Edit::Spaces(i) if n > 0 => lines[at(i)] = format!("  {} \n", lines[at(i)]),
        Edit::Drop(i) if n > 0 => {
            lines.remove(at(i));
        }
        Edit::Add(i, t) => lines.insert(*i as usize % (n + 1), t.clone()),
        Edit::Dup(i) if n > 0 => lines.insert(at(i), lines[at(i)].clone()),
        Edit::Swap(i) if n > 1 => lines.swap(at(i), (at(i) + 1) % n),
        Edit::Near(i, k) if n > 0 => {
            let f = &found[at(i)];
            let near: Vec<&String> = f.before.iter().chain(&f.after).collect();
            if let Some(l) = near.get(*k as usize % near.len().max(1)) {
                lines[at(i)] = l.to_string();
            }
        }
        Edit::Change(i, c) if n > 0 && lines[at(i)].is_ascii() => {
            let l = &mut lines[at(i)];
            let p = *c as usize % l.len();
            l.replace_range(p..p + 1, "#");
        }
        _ => {}
    }
    let mut ok = lines.len() == n && lines.iter().zip(&found).all(|(l, f)| f.line.contains(l.trim()));
    if !matches!(s.edit, Edit::NoGood) {
        write_file(dir, "data.log.good", &good);
    }
    if !matches!(s.edit, Edit::NoFail) {
        write_file(dir, "data.log.fail", &fail);
    }
    let inf = serde_json::json!({"anomalies": lines.iter().map(|l| serde_json::json!({"line": l})).collect::<Vec<_>>()});
    match s.edit {
        Edit::NoInf => {}
        Edit::BadInf => write_file(dir, "inf.yaml", b"anomalies: {"),
        _ => write_file(dir, "inf.yaml", yaml(&inf).as_bytes()),
    }
    if matches!(s.edit, Edit::NoGood | Edit::NoFail | Edit::NoInf | Edit::BadInf) {
        ok = false;
    }
    Some((ok, n))
}

/// JSON that a YAML reader takes as it is: YAML folds some of the characters that JSON leaves alone.
fn yaml(value: &serde_json::Value) -> String {
    value.to_string().chars().fold(String::new(), |mut s, c| {
        match c {
            '\u{7f}'..='\u{9f}' | '\u{2028}' | '\u{2029}' | '\u{feff}' => s.push_str(&format!("\\u{:04x}", c as u32)),
            _ => s.push(c),
        }
        s
    })
}

fn c21(r: &mut Runner) {
    let scratch = r.scratch.clone();
    r.sub(
        "history",
        "histories of 1-7 commands (train to a model file, diff with or without a model, path with a model or with the discovered baseline, html reports, damaged, removed and misplaced model files) over two generated baselines and model files; the output, exit status and model files of every command are compared with a model of the program; non-trivial: anomalies found after the first command",
        r.cases(1600, 30_000),
        history,
        |h, info| check_history(h, &scratch, info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "dataset",
        "generated data sets whose expected anomalies are the right ones, parts of them, lines next to them, or are dropped, added, swapped or altered; the evaluation of 1-2 data sets, or of up to 30 most of which are right, has to succeed exactly when all the anomalies match in order and number; non-trivial: an anomaly",
        r.cases(2500, 40_000),
        || prop_oneof![60 => proptest::collection::vec(set(), 1..3), 1 => proptest::collection::vec(set_mostly_right(), 17..30)],
        |sets, info| {
            let dir = case_dir(&scratch);
            let mut args: Vec<OsString> = vec!["test".into()];
            let mut ok = true;
            for (i, s) in sets.iter().enumerate() {
                let d = dir.path().join(format!("set{}", i));
                std::fs::create_dir_all(&d).unwrap();
                let Some((good, n)) = write_set(&d, s) else {
                    info.label("undecided");
                    return Ok(());
                };
                ok &= good;
                info.nontrivial_if(n > 0);
                args.push(d.into());
            }
            info.label(if ok { "success" } else { "failure" });
            let out = logreduce(dir.path(), &args, false);
            ensure!(!out.crashed(), "the program crashes: {}", short(&out.stderr));
            ensure!((out.code == Some(0)) == ok, "the evaluation {} instead of {}: {}", if ok { "fails" } else { "succeeds" }, if ok { "succeeding" } else { "failing" }, short(&out.stderr));
            Ok(())
        },
    );
}
