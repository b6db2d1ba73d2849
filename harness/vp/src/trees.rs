//! Generated trees of log files, and the report expected for them.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::logs::*;
use logreduce_model::{Anomaly, AnomalyContext, Report, Source};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::path::Path;

/// Kinds of logs: obviously different names.
pub const KINDS: [&str; 8] = ["alpha.log", "beta.txt", "net/gamma.log", "sys/delta.json", "sys/epsilon", "deep/er/zeta_eta.log", "sys/theta.json.log", "net/iotajson"];
/// Variants of one log, which share its index.
pub const VARIANTS: [&str; 7] = ["", ".1", ".22", "-20220101", ".gz", ".3.gz", ".2022-03-04"];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    No,
    /// a line that is not UTF-8, then the rest
    BadUtf8,
    /// a compressed file that is cut, per mille of its size
    Cut(u16),
    /// compressed file with its checksum altered
    BadSum,
    /// the file exists and cannot be opened
    Unreadable,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileSpec {
    pub kind: u8,
    pub variant: u8,
    pub runs: Vec<Run>,
    pub fault: Fault,
    pub members: u8,
}

impl FileSpec {
    pub fn kind(&self) -> usize {
        self.kind as usize % KINDS.len()
    }
    pub fn is_json(&self) -> bool {
        KINDS[self.kind()].ends_with(".json")
    }
    pub fn name(&self) -> String {
        let v = self.variant as usize % VARIANTS.len();
        // only these variants are read as JSON
        let v = if self.is_json() { [0, 4][v % 2] } else { v };
        format!("{}{}", KINDS[self.kind()], VARIANTS[v])
    }
    pub fn gz(&self) -> bool {
        self.name().ends_with(".gz")
    }
    /// What a reader of the (decompressed) file gets, and whether an error follows.
    pub fn readable(&self, base_n: u32) -> (Vec<u8>, bool) {
        let text = render_runs(&self.runs, base_n);
        match self.fault {
            Fault::BadUtf8 => (text, true),
            Fault::Cut(_) if self.gz() => {
                let disk = self.on_disk(base_n);
                let mut out = vec![];
                let failed = gz_prefix(&disk, &mut out);
                (out, failed)
            }
            Fault::BadSum if self.gz() => (text, true),
            Fault::Unreadable => (vec![], true),
            _ => (text, false),
        }
    }
    pub fn on_disk(&self, base_n: u32) -> Vec<u8> {
        let mut text = render_runs(&self.runs, base_n);
        if self.fault == Fault::BadUtf8 {
            text.extend(b"broken \xff\xfe line here\n");
            text.extend(render_runs(&[Run::New { u: 900, n: 3 }], base_n));
        }
        if !self.gz() {
            return text;
        }
        let mut out = gzip(&text, self.members);
        match self.fault {
            Fault::Cut(n) => {
                let len = out.len() * (n as usize % 1000) / 1000;
                out.truncate(len)
            }
            Fault::BadSum => {
                let n = out.len() - 8;
                out[n] ^= 1
            }
            _ => {}
        }
        out
    }
}

/// Compress, in one or several members.
pub fn gzip(data: &[u8], members: u8) -> Vec<u8> {
    let mut out = vec![];
    let n = members.clamp(1, 4) as usize;
    let step = data.len().div_ceil(n).max(1);
    let mut parts: Vec<&[u8]> = data.chunks(step).collect();
    if parts.is_empty() {
        parts.push(b"");
    }
    for p in parts {
        let mut e = flate2::write::GzEncoder::new(&mut out, flate2::Compression::new(6));
        e.write_all(p).unwrap();
        e.finish().unwrap();
    }
    out
}

/// Decompress what can be; true when it is damaged.
pub fn gz_prefix(data: &[u8], out: &mut Vec<u8>) -> bool {
    let mut d = flate2::read::MultiGzDecoder::new(data);
    let mut buf = [0u8; 8192];
    loop {
        match d.read(&mut buf) {
            Ok(0) => return false,
            Ok(n) => out.extend(&buf[..n]),
            Err(_) => return true,
        }
    }
}

/// Several files with distinct names.
pub fn files(max: usize, fault: bool) -> impl Strategy<Value = Vec<FileSpec>> {
    let fault = move || {
        if fault {
            prop_oneof![6 => Just(Fault::No), 1 => Just(Fault::BadUtf8), 1 => (0u16..1000).prop_map(Fault::Cut), 1 => Just(Fault::BadSum), 2 => Just(Fault::Unreadable)].boxed()
        } else {
            Just(Fault::No).boxed()
        }
    };
    proptest::collection::vec(
        (0u8..8, 0u8..7, small_runs(), fault(), prop_oneof![3 => Just(1u8), 1 => 2u8..4]).prop_map(|(kind, variant, runs, fault, members)| FileSpec { kind, variant, runs, fault, members }),
        1..=max,
    )
    .prop_map(|fs| {
        let mut names = HashSet::new();
        fs.into_iter().filter(|f| names.insert(f.name())).collect()
    })
}

/// The baseline lines of one file: file i of a kind has the lines whose rank is i modulo the number of files.
pub fn write_tree(dir: &Path, files: &[FileSpec], base_n: u32) {
    for f in files {
        write_file(dir, &f.name(), &f.on_disk(base_n));
        if f.fault == Fault::Unreadable {
            chmod(&dir.join(f.name()), 0);
        }
    }
}

pub fn chmod(p: &Path, mode: u32) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap();
}

pub fn write_file(dir: &Path, name: &str, data: &[u8]) {
    let p = dir.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, data).unwrap();
}

/// A baseline: for each kind a number of files sharing base_n known lines.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Base {
    pub kinds: BTreeSet<u8>,
    pub n: u32,
    pub split: u8,
    pub gz: bool,
    /// directories the files are spread over
    #[serde(default)]
    pub parts: u8,
    /// a file (modulo their number) that fails from some place on (per mille of its lines or bytes)
    #[serde(default)]
    pub damage: Option<(u8, u16, u8)>,
}

/// As `base`, in several directories and with a damaged file.
pub fn damaged_base() -> impl Strategy<Value = Base> {
    (base(), 1u8..4, proptest::option::weighted(0.5, (any::<u8>(), 0u16..1000, 0u8..3))).prop_map(|(mut b, parts, damage)| {
        b.parts = parts;
        b.damage = damage;
        b
    })
}

pub fn base() -> impl Strategy<Value = Base> {
    (proptest::collection::btree_set(0u8..8, 1..7), prop_oneof![1 => 1u32..4, 3 => 5u32..60], 1u8..4, any::<bool>()).prop_map(|(kinds, n, split, gz)| Base { kinds, n, split, gz, parts: 1, damage: None })
}

impl Base {
    /// name, is json, decompressed content
    pub fn files(&self) -> Vec<(u8, String, Vec<u8>)> {
        let mut out = vec![];
        for k in &self.kinds {
            let json = KINDS[*k as usize].ends_with(".json");
            let split = if json { 1 } else { self.split.max(1) };
            for (i, data) in baseline_sources(self.n, split, false).into_iter().enumerate() {
                let mut name = KINDS[*k as usize].to_string();
                if i > 0 {
                    name += &format!(".{}", i);
                }
                if self.gz && (i + *k as usize) % 2 == 0 {
                    name += ".gz";
                }
                out.push((*k, name, data));
            }
        }
        out
    }

    /// kind, name, file content, decompressed content up to the failure
    pub fn disk(&self) -> Vec<(u8, String, Vec<u8>, Vec<u8>)> {
        let files = self.files();
        let n = files.len();
        files
            .into_iter()
            .enumerate()
            .map(|(i, (kind, name, data))| {
                let gz = name.ends_with(".gz");
                let pack = |d: &[u8]| if gz { gzip(d, 1) } else { d.to_vec() };
                let json = KINDS[kind as usize].ends_with(".json");
                match self.damage {
                    Some((f, at, how)) if f as usize % n == i => match how {
                        1 if gz => {
                            let mut disk = pack(&data);
                            disk.truncate(disk.len() * at as usize / 1000);
                            let mut read = vec![];
                            gz_prefix(&disk, &mut read);
                            while !read.is_empty() && !ends_piece(&read, json) {
                                read.pop();
                            }
                            (kind, name, disk, read)
                        }
                        2 if gz => {
                            let mut disk = pack(&data);
                            let n = disk.len() - 8;
                            disk[n] ^= 1;
                            (kind, name, disk, data)
                        }
                        _ => {
                            let lines: Vec<&[u8]> = data.split_inclusive(|c| *c == b'\n').collect();
                            let (head, tail) = lines.split_at(lines.len() * at as usize / 1000);
                            let disk = [&head.concat()[..], b"broken \xff\xfe line here\n", &tail.concat()].concat();
                            (kind, name, pack(&disk), head.concat())
                        }
                    },
                    _ => (kind, name, pack(&data), data),
                }
            })
            .collect()
    }

    pub fn write(&self, dir: &Path) {
        for (_, name, disk, _) in self.disk() {
            write_file(dir, &name, &disk);
        }
    }

    /// Spread the files over the directories, and give those that were made.
    pub fn write_parts(&self, dir: &Path) -> Vec<std::path::PathBuf> {
        let mut out = vec![];
        for (i, (_, name, disk, _)) in self.disk().into_iter().enumerate() {
            let d = dir.join(format!("part{}", i % self.parts.max(1) as usize));
            write_file(&d, &name, &disk);
            if !out.contains(&d) {
                out.push(d);
            }
        }
        out
    }

    pub fn contents(&self, kind: u8) -> Vec<Vec<u8>> {
        self.disk().into_iter().filter(|f| f.0 == kind).map(|f| f.3).collect()
    }
}

/// What matters in a report, per file name.
#[derive(Debug, Default, PartialEq, Clone)]
pub struct View {
    /// anomalies, line count, byte count
    pub logs: BTreeMap<String, (Vec<Found>, usize, usize)>,
    pub read_errors: BTreeSet<String>,
    pub index_errors: BTreeSet<String>,
    pub lines: usize,
    pub anomalies: usize,
}

pub fn rel(s: &Source) -> String {
    s.get_relative().trim_start_matches('/').to_string()
}

pub fn found(a: &AnomalyContext) -> Found {
    let Anomaly { distance, pos, line } = a.anomaly.clone();
    Found { line, pos, distance: distance as f64, before: a.before.clone(), after: a.after.clone() }
}

pub fn view(r: &Report) -> Result<View, String> {
    let mut v = View { lines: r.total_line_count, anomalies: r.total_anomaly_count, ..Default::default() };
    for l in &r.log_reports {
        let name = rel(&l.source);
        ensure!(v.logs.insert(name.clone(), (l.anomalies.iter().map(found).collect(), l.line_count, l.byte_count)).is_none(), "{} is reported twice", name);
    }
    for (s, _) in &r.read_errors {
        ensure!(v.read_errors.insert(rel(s)), "the read error of {} is listed twice", rel(s));
    }
    for s in r.index_errors.iter().flatten() {
        ensure!(v.index_errors.insert(rel(s)), "{} is listed twice without index", rel(s));
    }
    Ok(v)
}

pub fn same_found(at: &str, want: &[Found], got: &[Found]) -> Check {
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else {
            return Err(format!("{}: anomaly {} of {} is missing: {} (line {})", at, i, want.len(), short(&w.line), w.pos));
        };
        ensure!(
            g.line == w.line && g.pos == w.pos && g.before == w.before && g.after == w.after && (g.distance - w.distance).abs() < 1e-4,
            "{}: anomaly {} is {} instead of {}",
            at,
            i,
            short(g),
            short(w)
        );
    }
    ensure!(got.len() == want.len(), "{}: extra anomaly {}", at, short(&got[want.len()]));
    Ok(())
}

pub fn same_view(want: &View, got: &View) -> Check {
    for (name, (a, lines, bytes)) in &want.logs {
        let Some((b, l, n)) = got.logs.get(name) else {
            return Err(format!("{} is not in the report, it has {} anomalies", name, a.len()));
        };
        same_found(name, a, b)?;
        ensure!((lines, bytes) == (l, n), "{}: {} lines and {} bytes are reported instead of {} and {}", name, l, n, lines, bytes);
    }
    for name in got.logs.keys() {
        ensure!(want.logs.contains_key(name), "{} has no anomaly and is in the report", name);
    }
    ensure!(want.read_errors == got.read_errors, "the read errors are {:?} instead of {:?}", got.read_errors, want.read_errors);
    ensure!(want.index_errors == got.index_errors, "the sources without index are {:?} instead of {:?}", got.index_errors, want.index_errors);
    ensure!(want.anomalies == got.anomalies, "{} anomalies in total instead of {}", got.anomalies, want.anomalies);
    ensure!(want.lines == got.lines, "{} lines in total instead of {}", got.lines, want.lines);
    Ok(())
}

/// The expected report; `order` lists the names in the order of the sources. None: undecided.
/// `shared`: a line is reported once per group and not once per file.
pub fn expected(base: &Base, targets: &[FileSpec], order: &[String], shared: bool) -> Option<View> {
    expected_lines(base, targets, order, shared, base.n)
}

/// As `expected`, for targets whose known lines are drawn from the first `lines_n`.
pub fn expected_lines(base: &Base, targets: &[FileSpec], order: &[String], shared: bool, lines_n: u32) -> Option<View> {
    let mut v = View::default();
    let mut groups: BTreeMap<u8, Vec<&FileSpec>> = BTreeMap::new();
    for name in order {
        let f = targets.iter().find(|f| f.name() == *name)?;
        groups.entry(f.kind() as u8).or_default().push(f);
    }
    for (kind, files) in groups {
        let index = if base.kinds.contains(&kind) {
            kind
        } else if base.kinds.len() == 1 {
            *base.kinds.iter().next().unwrap()
        } else {
            v.index_errors.extend(files.iter().map(|f| f.name()));
            continue;
        };
        let json_base = KINDS[index as usize].ends_with(".json");
        let mut reference = Reference::new(&base.contents(index), json_base);
        let mut seen = HashSet::new();
        for f in files {
            if !shared {
                seen.clear();
            }
            if f.fault == Fault::Unreadable {
                v.read_errors.insert(f.name());
                continue;
            }
            let (data, failed) = f.readable(lines_n);
            let mut pieces = reference_split(&data, f.is_json());
            if failed && data.last().is_some_and(|c| *c != b'\n') && matches!(f.fault, Fault::Cut(_)) {
                // the last piece may be incomplete: it is not delivered
                if !ends_piece(&data, f.is_json()) {
                    pieces.pop();
                }
            }
            let a = reference.detect(&pieces, &mut seen)?;
            v.lines += pieces.len();
            v.anomalies += a.len();
            if failed {
                v.read_errors.insert(f.name());
            }
            if !a.is_empty() {
                v.logs.insert(f.name(), (a, pieces.len(), pieces.iter().map(|p| p.bytes.len()).sum()));
            }
        }
    }
    Some(v)
}

/// Does the stream end right after a separator?
fn ends_piece(data: &[u8], json: bool) -> bool {
    let n = reference_split(data, json).len();
    let mut more = data.to_vec();
    more.push(b'q');
    reference_split(&more, json).len() > n
}

fn small_runs() -> impl Strategy<Value = Vec<Run>> {
    proptest::collection::vec(
        prop_oneof![
            4 => (0u32..60, 1u16..5).prop_map(|(k, n)| Run::Known { k, n }),
            1 => (0u32..60, 1u16..4).prop_map(|(k, n)| Run::Dup { k, n }),
            4 => (0u32..30, 1u16..3).prop_map(|(u, n)| Run::New { u, n }),
            1 => (0u32..30, 1u16..3).prop_map(|(u, n)| Run::NewDup { u, n }),
            1 => (0u32..60, 0u8..6).prop_map(|(k, shared)| Run::Mixed { k, shared }),
            1 => (0u32..60).prop_map(|k| Run::Error { k }),
            1 => (1u8..4).prop_map(Run::Blank),
            1 => (0u32..60, 0u32..30).prop_map(|(k, u)| Run::Object { k, u }),
            1 => (0u32..60, 0u32..30, any::<bool>()).prop_map(|(k, u, first)| Run::Embedded { k, u, first }),
        ],
        0..9,
    )
}

/// Run `f` as an unprivileged user, so that permissions apply. None when that is not possible.
pub fn unprivileged<T>(f: impl FnOnce() -> T) -> Option<T> {
    unsafe {
        if libc::geteuid() != 0 {
            return Some(f());
        }
        // raw calls: this thread only
        if libc::syscall(libc::SYS_setresuid, -1i32, 65534, -1i32) != 0 {
            return None;
        }
    }
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe {
        assert_eq!(libc::syscall(libc::SYS_setresuid, -1i32, 0, -1i32), 0, "can't become root again");
    }
    match res {
        Ok(v) => Some(v),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Whether permissions can be used to make a file unreadable.
pub fn can_deny(scratch: &Path) -> bool {
    let p = scratch.join("denied");
    std::fs::write(&p, "x").unwrap();
    chmod(&p, 0);
    let denied = unprivileged(|| std::fs::read(&p).is_err()).unwrap_or(false);
    let _ = std::fs::remove_file(&p);
    denied
}
