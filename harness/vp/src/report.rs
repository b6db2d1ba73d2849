//! C18-C19: the report and its page.
use crate::engine::*;
use crate::server::{self, Server};
use crate::trees::*;
use crate::web;
use crate::{ensure, prop, Prop};
use logreduce_model::{hashing_index, Anomaly, AnomalyContext, Content, IndexName, IndexReport, LogReport, Model, OutputMode, Report, Source};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};
use std::path::Path;
use std::time::{Duration, SystemTime};

pub fn props() -> Vec<Prop> {
    vec![
        prop("C18", "fault-injection", c18, &["the reference detector of C10 decides the anomalies", "an unreadable file is one without permission (as an unprivileged user) or refused by the http server"]),
        prop("C19", "exploration", c19, &["the page is read by a strict tokenizer written for the check, text is compared after decoding the character references"]),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    base: Base,
    files: Vec<FileSpec>,
    remote: bool,
}

fn case(remote: bool) -> impl Strategy<Value = Case> {
    (damaged_base(), files(9, true)).prop_map(move |(base, files)| Case { base, files, remote })
}

fn check_report(c: &Case, model: &Model, target: &Content, baselines: &[Content], info: &mut Info) -> Check {
    let run = || -> Result<(Vec<Source>, Report), String> {
        let sources = target.get_sources().map_err(|e| format!("no source: {:?}", e))?;
        let report = model.report(OutputMode::Quiet, target.clone()).map_err(|e| format!("no report: {:?}", e))?;
        Ok((sources, report))
    };
    let (sources, report) = if c.remote { run()? } else { unprivileged(run).unwrap_or_else(|| Err("can't drop the privileges".into()))? };
    let order: Vec<String> = sources.iter().map(rel).collect();
    let names: BTreeSet<String> = c.files.iter().map(|f| f.name()).collect();
    ensure!(order.iter().cloned().collect::<BTreeSet<_>>() == names && order.len() == names.len(), "the sources are {:?} instead of {:?}", order, names);
    let Some(want) = expected(&c.base, &c.files, &order, true) else {
        info.label("undecided");
        return Ok(());
    };
    info.nontrivial_if(want.anomalies > 0 && names.len() > 1 && (!want.read_errors.is_empty() || !want.index_errors.is_empty() || want.logs.len() > 1));
    info.label_if(!want.read_errors.is_empty(), "read errors");
    info.label_if(!want.index_errors.is_empty(), "no index");
    info.label_if(c.base.kinds.len() == 1, "single index");
    info.label_if(baselines.len() > 1, "several baselines");
    info.label_if(c.base.damage.is_some(), "damaged baseline");
    same_view(&want, &view(&report)?)?;
    ensure!(report.target == *target, "the target is {}", report.target);
    ensure!(report.baselines == baselines, "the baselines are {:?}", report.baselines);
    for l in &report.log_reports {
        ensure!(!l.anomalies.is_empty(), "{} is listed without anomaly", l.source);
        let Some(i) = report.index_reports.get(&l.index_name) else {
            return Err(format!("the index {} of {} is not described", l.index_name, l.source));
        };
        let kind = c.files.iter().find(|f| f.name() == rel(&l.source)).unwrap().kind() as u8;
        let kind = if c.base.kinds.contains(&kind) { kind } else { *c.base.kinds.iter().next().unwrap() };
        let want: BTreeSet<String> = c.base.files().into_iter().filter(|f| f.0 == kind).map(|f| f.1).collect();
        let got: BTreeSet<String> = i.sources.iter().map(rel).collect();
        ensure!(got == want, "the index of {} is made of {:?} instead of {:?}", l.source, got, want);
    }
    Ok(())
}

/// groups: (has a baseline, number of files, (known lines, own lines, fault) of the files in turn)
fn crowd(scratch: &Path, groups: &[(bool, u16, Vec<(u8, u8, u8)>)], n: u32, info: &mut Info) -> Check {
    use crate::proc::wide_line;
    let dir = case_dir(scratch);
    let (good, bad) = (dir.path().join("good"), dir.path().join("bad"));
    let base: String = (0..n).map(|k| wide_line(k, false, k) + "\n").collect();
    // a group more, so that the indexes are never a single one
    for g in ["extra", "other"] {
        write_file(&good, &format!("{}/app.log", g), base.as_bytes());
    }
    let mut own = 0u32;
    // per file: its anomalies, number of lines, whether it fails, whether it has a baseline
    let mut want: HashMap<String, (Vec<(usize, String)>, usize, bool, bool)> = HashMap::new();
    for (g, (known, count, files)) in groups.iter().enumerate() {
        let group = ["red", "blue", "green", "black", "white"][g % 5];
        if *known {
            write_file(&good, &format!("{}/app.log", group), base.as_bytes());
        }
        for i in 0..*count {
            let (k, u, fault) = files[i as usize % files.len()];
            let failing = fault == 0;
            let name = format!("{}/app.log.{}{}", group, i, if failing { ".gz" } else { "" });
            let (mut text, mut lines, mut found) = (String::new(), 0, vec![]);
            for j in 0..(k + u) as u32 {
                lines += 1;
                let line = if j % 2 == 0 && j / 2 < u as u32 || j >= 2 * k as u32 {
                    own += 1;
                    let line = wide_line(own, true, j);
                    found.push((lines, line.clone()));
                    line
                } else {
                    wide_line((i as u32 + j) % n, false, own)
                };
                text += &line;
                text.push('\n');
            }
            let mut disk = text.into_bytes();
            if failing {
                // everything can be read, then the checksum is missing
                disk = gzip(&disk, 1);
                disk.truncate(disk.len() - 8);
            }
            write_file(&bad, &name, &disk);
            want.insert(name, (found, lines, failing, *known));
        }
    }
    info.nontrivial_if(want.len() > 20 && groups.len() > 1);
    info.label_if(want.len() > 100, "more than a hundred files");
    info.label_if(groups.iter().any(|g| !g.0), "no index");
    let content = |p: &Path| Content::from_path(p).map_err(|e| e.to_string());
    let model = Model::train(OutputMode::Quiet, vec![content(&good)?], hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
    let report = model.report(OutputMode::Quiet, content(&bad)?).map_err(|e| format!("no report: {:?}", e))?;
    let got = view(&report)?;
    let (mut lines, mut anomalies) = (0, 0);
    for (name, (found, count, failing, known)) in &want {
        ensure!(got.index_errors.contains(name) != *known, "{} is{} listed as without index", name, if *known { "" } else { " not" });
        ensure!(got.read_errors.contains(name) == (*failing && *known), "{} is{} listed as a read error", name, if *failing && *known { " not" } else { "" });
        let shown = if *known { found.clone() } else { vec![] };
        let (listed, l, _) = got.logs.get(name).cloned().unwrap_or_default();
        ensure!(got.logs.contains_key(name) != shown.is_empty(), "{} has {} anomalies and is{} in the report", name, shown.len(), if shown.is_empty() { "" } else { " not" });
        let listed: Vec<(usize, String)> = listed.into_iter().map(|f| (f.pos, f.line)).collect();
        ensure!(listed == shown, "{}: the anomalies are {} instead of {}", name, short(&listed), short(&shown));
        ensure!(shown.is_empty() || l == *count, "{}: {} lines are reported instead of {}", name, l, count);
        if *known {
            lines += count;
            anomalies += shown.len();
        }
    }
    ensure!(got.logs.keys().chain(&got.index_errors).chain(&got.read_errors).all(|n| want.contains_key(n)), "the report has other files");
    ensure!((got.lines, got.anomalies) == (lines, anomalies), "the totals are {} lines and {} anomalies instead of {} and {}", got.lines, got.anomalies, lines, anomalies);
    Ok(())
}

fn c18(r: &mut Runner) {
    let deny = can_deny(&r.scratch);
    let scratch = r.scratch.clone();
    r.sub(
        "local",
        "targets of 1-9 files of eight kinds (rotated, compressed) against baselines of 1-6 kinds; some files are not UTF-8 from some line on, are cut or corrupted archives, or have no read permission; the whole report is compared with the one computed by the reference detector, counts and index descriptions included; non-trivial: an anomaly, several files, and a failure, a missing index or two files with anomalies",
        r.cases(10_000, 120_000),
        || case(false),
        |c, info| {
            let mut c = c.clone();
            if !deny {
                info.label("permissions not enforced");
                c.files.iter_mut().filter(|f| f.fault == Fault::Unreadable).for_each(|f| f.fault = Fault::No);
            }
            let dir = case_dir(&scratch);
            let (good, bad) = (dir.path().join("good"), dir.path().join("bad"));
            let parts = c.base.write_parts(&good);
            write_tree(&bad, &c.files, c.base.n);
            let content = |p: &Path| Content::from_path(p).map_err(|e| e.to_string());
            let target = content(&bad)?;
            let baselines = parts.iter().map(|p| content(p)).collect::<Result<Vec<_>, _>>()?;
            let model = Model::train(OutputMode::Quiet, baselines.clone(), hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
            check_report(&c, &model, &target, &baselines, info)
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "crowd",
        "targets of up to four hundred files in one to five groups, some without baseline, some of them cut archives, each with known lines and lines of its own; every file must be accounted for exactly once, with its own anomalies and counts, and the totals must be the sums; non-trivial: more than twenty files in two groups",
        r.cases(160, 4_000),
        || {
            let group = (any::<bool>(), prop_oneof![2 => 1u16..12, 1 => 12u16..160], proptest::collection::vec((0u8..5, 0u8..4, 0u8..10), 1..7));
            (proptest::collection::vec(group, 1..6), 1u32..40)
        },
        |(groups, n), info| crowd(&scratch, groups, *n, info),
    );
    let server = Server::start();
    let scratch = r.scratch.clone();
    r.sub(
        "remote",
        "the same targets served over http, where unreadable files are refused with an error status; non-trivial: as above",
        r.cases(2_400, 30_000),
        || case(true),
        |c, info| {
            server.clear();
            let dir = case_dir(&scratch);
            let good = dir.path().join("good");
            let parts = c.base.write_parts(&good);
            let prefix = web::fresh_prefix("bad");
            let pages: Vec<(String, server::Page)> = c
                .files
                .iter()
                .map(|f| {
                    // archives are served as they are, with their encoding: a damaged one is for C17
                    let mut f = f.clone();
                    if matches!(f.fault, Fault::Cut(_) | Fault::BadSum) {
                        f.fault = Fault::No;
                    }
                    let mut plain = f.clone();
                    plain.variant = 0;
                    let mut page = server::Page::new(plain.on_disk(c.base.n));
                    page.gzip = f.gz();
                    if f.fault == Fault::Unreadable {
                        page.fault = server::Fault::Status(403);
                    }
                    (f.name(), page)
                })
                .collect();
            web::serve_tree(&server, &prefix, &pages, 0);
            let mut c = c.clone();
            for f in c.files.iter_mut() {
                if matches!(f.fault, Fault::Cut(_) | Fault::BadSum) {
                    f.fault = Fault::No;
                }
            }
            let baselines = parts.iter().map(|p| Content::from_path(p).map_err(|e| e.to_string())).collect::<Result<Vec<_>, _>>()?;
            let target = Content::from_url(server.url(&prefix)).map_err(|e| e.to_string())?;
            let model = Model::train(OutputMode::Quiet, baselines.clone(), hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
            check_report(&c, &model, &target, &baselines, info)
        },
    );
}

// ---- C19

/// A report made of generated texts.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReportSpec {
    target: Loc,
    baselines: Vec<Loc>,
    logs: Vec<LogSpec>,
    errors: Vec<(Loc, String)>,
    created: u32,
    run_ms: u32,
    lines: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Loc {
    File(String),
    Dir(String),
    Url(String),
    Zuul(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LogSpec {
    source: Loc,
    base: u8,
    index: String,
    sources: Option<Vec<Loc>>,
    anomalies: Vec<AnomalySpec>,
    /// all on the first lines, as the strings of a JSON document
    #[serde(default)]
    dense: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnomalySpec {
    gap: u16,
    distance: u8,
    line: String,
    before: Vec<String>,
    after: Vec<String>,
}

fn text() -> impl Strategy<Value = String> {
    let nasty = prop_oneof![
        Just("<script>alert(1)</script>"), Just("</pre>"), Just("&amp;"), Just("&lt;b&gt;"), Just("a < b && c > d"), Just("\"quoted\""), Just("it's"), Just("<!--"), Just("-->"), Just("]]>"),
        Just("</div></body></html>"), Just("&#39;"), Just("\" onclick=\"x"), Just("' x='"), Just("<"), Just(">"), Just("&"), Just("<img src=x>"), Just("\t\ttabs  and   spaces  "), Just("</style><style>"),
        Just("</script>"), Just("</title>"), Just(" | "), Just("é漢字🦀"), Just("\r"), Just("{{template}}"), Just("&nbsp;")
    ];
    let piece = prop_oneof![3 => nasty.prop_map(|s| s.to_string()), 3 => "[ -~]{0,20}", 1 => "\\PC{0,10}", 2 => "[a-z]{3,9}( [a-z0-9]{1,8}){0,4}"];
    proptest::collection::vec(piece, 1..4).prop_map(|v| v.concat())
}

fn loc() -> impl Strategy<Value = Loc> {
    prop_oneof![3 => text().prop_map(Loc::File), 1 => text().prop_map(Loc::Dir), 2 => text().prop_map(Loc::Url), 1 => text().prop_map(Loc::Zuul)]
}

pub fn report_spec() -> impl Strategy<Value = ReportSpec> {
    let anomaly = || {
        (prop_oneof![3 => 0u16..6, 1 => 0u16..3000], any::<u8>(), text(), proptest::collection::vec(text(), 0..4), proptest::collection::vec(text(), 0..4))
            .prop_map(|(gap, distance, line, before, after)| AnomalySpec { gap, distance, line, before, after })
    };
    let log = (
        prop_oneof![text().prop_map(Loc::File), text().prop_map(Loc::Url)],
        any::<u8>(),
        prop_oneof![1 => text(), 1 => "[a-z]{3,6}"],
        proptest::option::of(proptest::collection::vec(prop_oneof![text().prop_map(Loc::File), text().prop_map(Loc::Url)], 0..5)),
        proptest::collection::vec(anomaly(), 0..5),
        proptest::bool::weighted(0.2),
    )
        .prop_map(|(source, base, index, sources, anomalies, dense)| LogSpec { source, base, index, sources, anomalies, dense });
    (loc(), proptest::collection::vec(loc(), 0..3), proptest::collection::vec(log, 0..5), proptest::collection::vec((text().prop_map(Loc::File), text()), 0..2), any::<u32>(), any::<u32>(), prop_oneof![Just(0u32), any::<u32>()])
        .prop_map(|(target, baselines, logs, errors, created, run_ms, lines)| ReportSpec { target, baselines, logs, errors, created, run_ms, lines })
}

fn url(t: &str) -> url::Url {
    // what the url parser does with a text is not the matter here
    let mut u = url::Url::parse("http://example.com/logs/").unwrap();
    u.set_path(&format!("/logs/{}", t));
    u
}

impl Loc {
    fn source(&self, base: u8) -> Source {
        match self {
            Loc::File(t) | Loc::Dir(t) => {
                let p = format!("/base/{}", t);
                let n = if p.is_char_boundary(base as usize % 7) { base as usize % 7 } else { 0 };
                Source::Local(n, p.into())
            }
            Loc::Url(t) | Loc::Zuul(t) => Source::Remote(base as usize % 20, url(t)),
        }
    }
    fn content(&self, base: u8) -> Content {
        match self {
            Loc::File(_) | Loc::Url(_) => Content::File(self.source(base)),
            Loc::Dir(_) => Content::Directory(self.source(base)),
            Loc::Zuul(t) => {
                let b = serde_json::json!({
                    "api": "http://example.com/api/", "uuid": t, "job_name": t, "project": t, "branch": t, "result": t, "pipeline": t,
                    "log_url": url(t), "ref_url": url(t), "end_time": "2022-01-01T00:00:00Z", "change": 42
                });
                Content::Zuul(Box::new(serde_json::from_value(b).expect("build")))
            }
        }
    }
}

impl ReportSpec {
    pub fn report(&self) -> Report {
        let mut log_reports = vec![];
        let mut index_reports = HashMap::new();
        let mut total = 0;
        for l in &self.logs {
            let mut pos = 1usize;
            let mut anomalies = vec![];
            for a in &l.anomalies {
                if !l.dense {
                    pos += a.gap as usize + a.before.len();
                }
                anomalies.push(AnomalyContext {
                    before: a.before.clone(),
                    anomaly: Anomaly { distance: 0.3 + 0.7 * a.distance as f32 / 255.0, pos, line: a.line.clone() },
                    after: a.after.clone(),
                });
                pos += if l.dense { a.gap as usize % 2 } else { 1 + a.after.len() };
            }
            total += anomalies.len();
            let index_name = IndexName(l.index.clone());
            if let Some(s) = &l.sources {
                index_reports.insert(index_name.clone(), IndexReport { train_time: Duration::from_millis(5), sources: s.iter().map(|s| s.source(l.base)).collect() });
            }
            log_reports.push(LogReport { test_time: Duration::from_millis(3), line_count: 10, byte_count: 100, anomalies, source: l.source.source(l.base), index_name });
        }
        Report {
            created_at: SystemTime::UNIX_EPOCH + Duration::from_secs(self.created as u64),
            run_time: Duration::from_millis(self.run_ms as u64),
            target: self.target.content(3),
            baselines: self.baselines.iter().map(|b| b.content(0)).collect(),
            log_reports,
            index_reports,
            index_errors: vec![self.errors.iter().map(|e| e.0.source(0)).collect()],
            read_errors: self.errors.iter().map(|e| (e.0.source(0), e.1.clone())).collect(),
            total_line_count: self.lines as usize,
            total_anomaly_count: total,
        }
    }
}

#[derive(Debug, PartialEq)]
enum Ev {
    Start(String, Vec<(String, String)>),
    End(String),
    Text(String),
}

const VOID: [&str; 6] = ["link", "meta", "img", "hr", "br", "input"];

pub fn decode(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let mut hit = false;
        for (e, c) in [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&apos;", "'"), ("&nbsp;", "\u{a0}")] {
            if let Some(r) = rest.strip_prefix(e) {
                out.push_str(c);
                rest = r;
                hit = true;
                break;
            }
        }
        if !hit && rest.starts_with("&#") {
            if let Some(end) = rest.find(';') {
                let n = &rest[2..end];
                let v = match n.strip_prefix(['x', 'X']) {
                    Some(h) => u32::from_str_radix(h, 16).ok(),
                    None => n.parse().ok(),
                };
                if let Some(c) = v.and_then(char::from_u32) {
                    out.push(c);
                    rest = &rest[end + 1..];
                    hit = true;
                }
            }
        }
        if !hit {
            out.push('&');
            rest = &rest[1..];
        }
    }
    out.push_str(rest);
    out
}

/// A strict reader of the page.
fn tokens(page: &str) -> Result<Vec<Ev>, String> {
    let mut out = vec![];
    let mut rest = page;
    loop {
        let Some(i) = rest.find('<') else {
            out.push(Ev::Text(decode(rest)));
            return Ok(out);
        };
        if i > 0 {
            out.push(Ev::Text(decode(&rest[..i])));
        }
        rest = &rest[i + 1..];
        let bad = |r: &str| format!("bad markup at <{}", short(r));
        if let Some(r) = rest.strip_prefix("!DOCTYPE") {
            let end = r.find('>').ok_or_else(|| bad(rest))?;
            rest = &r[end + 1..];
            continue;
        }
        let closing = rest.starts_with('/');
        if closing {
            rest = &rest[1..];
        }
        let n = rest.find(|c: char| !c.is_ascii_alphanumeric()).ok_or_else(|| bad(rest))?;
        ensure!(n > 0, "{}", bad(rest));
        let tag = rest[..n].to_ascii_lowercase();
        rest = &rest[n..];
        let mut attrs = vec![];
        loop {
            rest = rest.trim_start();
            if let Some(r) = rest.strip_prefix('>') {
                rest = r;
                break;
            }
            let eq = rest.find('=').ok_or_else(|| bad(rest))?;
            let name = &rest[..eq];
            ensure!(!name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '-'), "bad attribute in <{}>: {}", tag, short(rest));
            let quote = rest[eq + 1..].chars().next().filter(|c| *c == '"' || *c == '\'').ok_or_else(|| bad(rest))?;
            let value = &rest[eq + 2..];
            let end = value.find(quote).ok_or_else(|| bad(rest))?;
            attrs.push((name.to_string(), decode(&value[..end])));
            rest = &value[end + 1..];
        }
        if closing {
            out.push(Ev::End(tag));
        } else {
            let raw = tag == "script" || tag == "style";
            out.push(Ev::Start(tag.clone(), attrs));
            if raw {
                let end = rest.find(&format!("</{}", tag)).ok_or_else(|| format!("no end of {}", tag))?;
                out.push(Ev::Text(rest[..end].to_string()));
                rest = &rest[end..];
            }
        }
    }
}

/// The tags and the attribute names, without the texts and the links.
fn skeleton(evs: &[Ev]) -> Vec<String> {
    evs.iter()
        .filter_map(|e| match e {
            Ev::Start(t, a) => Some(format!("{} {:?}", t, a.iter().map(|(n, v)| if n == "href" || n == "style" { n.clone() } else { format!("{}={}", n, v) }).collect::<Vec<_>>())),
            Ev::End(t) => Some(format!("/{}", t)),
            Ev::Text(_) => None,
        })
        .collect()
}

fn check_page(report: &Report) -> Result<Vec<Ev>, String> {
    let page = logreduce_report::render(report).map_err(|e| format!("the page is not rendered: {}", e))?;
    let evs = tokens(&page)?;
    // balanced
    let mut stack = vec![];
    for e in &evs {
        match e {
            Ev::Start(t, _) if !VOID.contains(&t.as_str()) => stack.push(t.clone()),
            Ev::End(t) => ensure!(stack.pop().as_ref() == Some(t), "unexpected </{}>", t),
            _ => {}
        }
    }
    ensure!(stack.is_empty(), "{:?} are not closed", stack);
    Ok(evs)
}

fn c19(r: &mut Runner) {
    r.sub(
        "page",
        "reports of generated texts (markup, entities, quotes, comments, unicode, blanks) as log lines, contexts, file names, urls, index names and zuul builds; the page is tokenized strictly: every line is shown verbatim with its number and in order, every file name precedes its lines, the time of creation and the totals are shown, links decode to the locations, and the markup is that of the same report made of harmless texts; non-trivial: an anomaly whose texts hold < > & or a quote",
        r.cases(96_000, 384_000),
        report_spec,
        check_spec,
    );
    r.sub(
        "big",
        "the same, with up to seventy baselines, up to a hundred files, up to three thousand anomalies or context lines in a file, lines of up to 6000 characters, many samples of a baseline and line numbers in the millions; non-trivial: more than twenty baselines, fifty files or a thousand lines",
        r.cases(1200, 12_000),
        big_spec,
        check_spec,
    );
}

fn big_spec() -> impl Strategy<Value = ReportSpec> {
    let long = || prop_oneof![4 => text(), 1 => (text(), 1usize..400).prop_map(|(t, n)| t.repeat(n).chars().take(6000).collect::<String>())];
    let anomaly = move || {
        (prop_oneof![3 => 0u16..6, 1 => any::<u16>()], any::<u8>(), long(), proptest::collection::vec(text(), 0..4), proptest::collection::vec(text(), 0..4))
            .prop_map(|(gap, distance, line, before, after)| AnomalySpec { gap, distance, line, before, after })
    };
    (report_spec(), proptest::collection::vec(anomaly(), 1..6), 0u8..5, 1usize..3000, proptest::collection::vec(loc(), 1..5), 1usize..70).prop_map(|(mut r, pool, what, n, locs, k)| {
        let first = LogSpec { source: Loc::File("first".into()), base: 6, index: "first".into(), sources: None, anomalies: vec![], dense: false };
        if r.logs.is_empty() {
            r.logs.push(first);
        }
        let repeated = |n: usize| (0..n).map(|i| AnomalySpec { gap: pool[i % pool.len()].gap.wrapping_mul(i as u16 % 7), ..pool[i % pool.len()].clone() }).collect::<Vec<_>>();
        match what {
            0 => r.baselines = (0..k).map(|i| numbered(&locs[i % locs.len()], i)).collect(),
            1 => {
                let some = r.logs.clone();
                r.logs = (0..k + 30).map(|i| LogSpec { source: numbered(&some[i % some.len()].source, i), ..some[i % some.len()].clone() }).collect();
            }
            2 => r.logs[0].sources = Some((0..k).map(|i| numbered(&locs[i % locs.len()], i)).filter(|l| matches!(l, Loc::File(_) | Loc::Url(_))).collect()),
            3 => {
                let a = pool[0].clone();
                r.logs[0].anomalies = vec![AnomalySpec { before: (0..n).map(|i| format!("{}{}", i, pool[i % pool.len()].line)).collect(), ..a.clone() }, AnomalySpec { after: (0..n / 3).map(|i| format!("{} {}", a.line, i)).collect(), ..a }];
            }
            _ => {
                let last = r.logs.len() - 1;
                r.logs[last].anomalies = repeated(n);
            }
        }
        r
    })
}

fn numbered(l: &Loc, i: usize) -> Loc {
    match l {
        Loc::File(t) => Loc::File(format!("{}{}", i, t)),
        Loc::Dir(t) => Loc::Dir(format!("{}{}", i, t)),
        Loc::Url(t) => Loc::Url(format!("{}{}", i, t)),
        Loc::Zuul(t) => Loc::Zuul(format!("{}{}", i, t)),
    }
}

fn check_spec(spec: &ReportSpec, info: &mut Info) -> Check {
    let report = spec.report();
    let evs = check_page(&report)?;
    let lines: usize = spec.logs.iter().flat_map(|l| &l.anomalies).map(|a| 1 + a.before.len() + a.after.len()).sum();
    let big = spec.baselines.len() > 20 || spec.logs.len() > 50 || lines > 1000;
    info.label_if(big, "big");
    info.nontrivial_if(big || spec.logs.iter().any(|l| l.anomalies.iter().any(|a| a.line.contains(['<', '>', '&', '"', '\'']))));
    // same markup as with harmless texts
    let mut j = serde_json::to_value(spec).unwrap();
    harmless(&mut j);
    let plain: ReportSpec = serde_json::from_value(j).unwrap();
    // the same number of indexes is needed, they are told apart by name
    let mut plain = plain;
    let mut names: Vec<&String> = vec![];
    for (l, p) in spec.logs.iter().zip(plain.logs.iter_mut()) {
        let k = names.iter().position(|n| **n == l.index).unwrap_or_else(|| {
            names.push(&l.index);
            names.len() - 1
        });
        p.index = format!("index{}", k);
    }
    let want = skeleton(&check_page(&plain.report())?);
    let got = skeleton(&evs);
    if let Some((g, w)) = got.iter().zip(&want).find(|(g, w)| g != w) {
        return Err(format!("the texts change the markup: <{}> instead of <{}>", g, w));
    }
    ensure!(got.len() == want.len(), "the texts change the markup: {} tags instead of {}", got.len(), want.len());
    // the lines
    let totals = format!("(from {} to {})", report.total_line_count, report.total_anomaly_count);
    let Some(start) = evs.iter().position(|e| matches!(e, Ev::Text(t) if t.contains(&totals))) else {
        return Err(format!("the totals {:?} are not shown", totals));
    };
    let head: String = evs[..start].iter().filter_map(|e| if let Ev::Text(t) = e { Some(t.as_str()) } else { None }).collect();
    let created = chrono::DateTime::<chrono::Utc>::from(report.created_at).to_rfc3339_opts(chrono::SecondsFormat::Secs, true).replace('T', " ").replace('Z', "");
    ensure!(head.contains(&created), "the time of creation {:?} is not shown in {:?}", created, short(&head));
    // after the name and the index of each file comes the number of its anomalies
    let counts: Vec<usize> = (start..evs.len()).filter(|i| matches!(&evs[*i], Ev::Start(t, _) if t == "strong")).collect();
    ensure!(counts.len() == report.log_reports.len(), "{} files are shown instead of {}", counts.len(), report.log_reports.len());
    let mut pres = 0;
    for (k, (l, spec)) in report.log_reports.iter().zip(&spec.logs).enumerate() {
        let name = l.source.get_relative();
        let text = |range: std::ops::Range<usize>, s: &str| s.trim().is_empty() || evs[range].iter().any(|e| matches!(e, Ev::Text(t) if t.trim() == s.trim()));
        let mut at = if k == 0 { start } else { counts[k - 1] + 2 };
        ensure!(text(at..counts[k], name), "the name {:?} is not shown before its lines", name);
        ensure!(text(at..counts[k], &l.index_name.0), "{}: the index {:?} is not shown", name, l.index_name);
            let wrong = evs[at..counts[k]].windows(2).find_map(|w| match w {
                // the link of an index, if any, holds its name
                [Ev::Start(t, a), Ev::Text(x)] if t == "a" && x.trim() == l.index_name.0.trim() => a.iter().find(|(n, v)| n == "href" && v.starts_with('#') && !v.ends_with(&l.index_name.0)),
                _ => None,
            });
            ensure!(wrong.is_none(), "{}: the index {:?} is linked as {:?}", name, l.index_name, wrong);
        let count = match &evs[counts[k] + 1] {
            Ev::Text(n) => n.trim(),
            _ => "nothing",
        };
        ensure!(count == l.anomalies.len().to_string(), "{}: {} anomalies are announced instead of {}", name, count, l.anomalies.len());
        at = counts[k] + 2;
        let end = counts.get(k + 1).copied().unwrap_or(evs.len());
        let lines = evs[at..end].iter().position(|e| matches!(e, Ev::Start(t, _) if t == "pre")).map(|i| at + i).unwrap_or(end);
        if let Some(index) = report.index_reports.get(&l.index_name) {
            for s in index.sources.iter().take(3) {
                let shown = evs[at..lines].windows(2).any(|w| matches!(w, [Ev::Start(t, a), Ev::Text(x)] if t == "a" && a.iter().any(|(n, v)| n == "href" && v == s.as_str()) && x.trim() == s.as_str().trim()));
                ensure!(shown || s.as_str().trim().is_empty(), "{}: the sample {:?} of the baseline is not shown", name, s);
            }
        }
        // number, text, distance, whether a separator comes first
        let mut want: Vec<(Option<usize>, &str, Option<f32>, bool)> = vec![];
        let mut last = None;
        for a in &l.anomalies {
            let pos = a.anomaly.pos;
            let mut sep = last.is_some_and(|l| l + 1 + a.before.len() != pos);
            for (i, b) in a.before.iter().enumerate() {
                want.push(((pos + i).checked_sub(a.before.len()).filter(|_| pos > a.before.len()), b, None, std::mem::take(&mut sep)));
            }
            want.push((Some(pos), &a.anomaly.line, Some(a.anomaly.distance), sep));
            for (i, b) in a.after.iter().enumerate() {
                want.push((Some(pos + 1 + i), b, None, false));
            }
            last = Some(pos + a.after.len());
        }
        for (first, (nr, line, distance, sep)) in want.into_iter().enumerate().map(|(n, w)| (n == 0, w)) {
            let Some(i) = evs[at..end].iter().position(|e| matches!(e, Ev::Start(t, _) if t == "pre")) else {
                return Err(format!("{}: line {:?} {:?} is missing", name, nr, line));
            };
            let hr = evs[at..at + i].iter().any(|e| matches!(e, Ev::Start(t, _) if t == "hr"));
            ensure!(first || spec.dense || hr == sep, "{}: {} separator before {:?}", name, if hr { "an unexpected" } else { "no" }, line);
            at += i + 1;
            pres += 1;
            let Some(Ev::Text(t)) = evs.get(at) else { return Err("an empty line".into()) };
            let (left, right) = t.split_once(" | ").ok_or_else(|| format!("no separator in {:?}", t))?;
            let left: Vec<&str> = left.split_whitespace().collect();
            let text = right.strip_prefix(line).filter(|r| r.chars().all(|c| c == ' ' || c == '\n'));
            ensure!(text.is_some(), "{}: {:?} is shown instead of {:?}", name, right, line);
            ensure!(left.len() == if distance.is_some() { 2 } else { 1 }, "{}: {:?} before {:?}", name, left, line);
            if let Some(d) = distance {
                let shown: f32 = left[0].parse().map_err(|_| format!("{}: {:?} is not a distance", name, left[0]))?;
                ensure!((shown - d * 99.0).abs() <= 1.01, "{}: the distance {} is shown as {}", name, d, shown);
            }
            if let Some(nr) = nr.filter(|_| !spec.dense || distance.is_some()) {
                ensure!(left.last() == Some(&nr.to_string().as_str()), "{}: number {:?} instead of {} before {:?}", name, left.last(), nr, line);
            }
        }
        let href = l.source.as_str();
        ensure!(evs.iter().any(|e| matches!(e, Ev::Start(t, a) if t == "a" && a.iter().any(|(n, v)| n == "href" && v == href))), "no link to {:?}", href);
    }
    let all = evs.iter().filter(|e| matches!(e, Ev::Start(t, _) if t == "pre")).count();
    ensure!(all == pres, "{} lines are shown instead of {}", all, pres);
    let target = report.target.to_string();
    let shown = |s: &str| evs.iter().any(|e| matches!(e, Ev::Text(t) if t.trim() == s.trim()));
    ensure!(shown(&target), "the target {:?} is not shown", target);
    let baselines: Vec<String> = report.baselines.iter().map(|b| b.to_string()).collect();
    ensure!(baselines.is_empty() || shown(&baselines.join(", ")), "the baselines {:?} are not shown", baselines);
    Ok(())
}

/// Replace the texts by a harmless one.
fn harmless(j: &mut serde_json::Value) {
    match j {
        serde_json::Value::String(s) => *s = "x".into(),
        serde_json::Value::Array(a) => a.iter_mut().for_each(harmless),
        serde_json::Value::Object(o) => o.values_mut().for_each(harmless),
        _ => {}
    }
}
