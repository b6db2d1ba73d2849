//! C27-C29: Zuul builds.
use crate::cli;
use crate::engine::*;
use crate::server::{Fault, Page, Server};
use crate::trees::*;
use crate::web;
use crate::{ensure, prop, Prop};
use chrono::{DateTime, Duration, NaiveDate, Utc};
use logreduce_model::{Content, Source};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::ffi::OsString;
use std::path::Path;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C27", "fault-injection", c27, &["the API is a mock that records the requests"]),
        prop("C28", "exploration", c28, &["the API is a mock that filters by job and result and limits its answer as the real one does", "cases where the date changes during the discovery are not decided"]),
        prop("C29", "exploration", c29, &["whole second times in the years 1000-9999 and durations that fit 32 bits"]),
    ]
}

/// A build as sent by the API.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spec {
    uuid: String,
    job: String,
    result: String,
    start: u32,
    end: u32,
    duration: u32,
    fraction: u16,
    voting: bool,
    log_url: Option<String>,
    ref_url: Option<String>,
    artifacts: Vec<(String, String)>,
    project: String,
    branch: String,
    pipeline: String,
    change: Option<u64>,
    patchset: Option<String>,
    change_ref: String,
    event: String,
    /// optional fields without value are left out
    absent: bool,
    extra: Vec<(String, u8)>,
    order: u64,
    number: u8,
}

fn time(secs: u32) -> DateTime<Utc> {
    // from 1970 to 2106
    DateTime::<Utc>::from_utc(chrono::NaiveDateTime::from_timestamp(secs as i64, 0), Utc)
}

fn stamp(t: DateTime<Utc>) -> String {
    t.format("%Y-%m-%dT%H:%M:%S").to_string()
}

fn any_json(n: u8) -> Value {
    match n % 9 {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(n),
        3 => json!("text"),
        4 => json!([1, "a", null]),
        5 => json!({"a": {"b": []}}),
        6 => json!(-1.5),
        7 => json!([]),
        _ => json!({}),
    }
}

impl Spec {
    fn fields(&self) -> Vec<(String, String)> {
        let opt = |v: Value| if v.is_null() && self.absent { None } else { Some(v) };
        let duration = match self.number % 4 {
            0 => format!("{}", self.duration),
            1 => format!("{}.0", self.duration),
            2 => format!("{}.{}", self.duration, self.fraction),
            _ => format!("{}e-3", self.duration as u64 * 1000 + self.fraction as u64 % 1000),
        };
        let mut out: Vec<(String, Option<String>)> = vec![];
        let mut add = |k: &str, v: Option<Value>| out.push((k.to_string(), v.map(|v| v.to_string())));
        add("uuid", Some(json!(self.uuid)));
        add("job_name", Some(json!(self.job)));
        add("result", Some(json!(self.result)));
        add("start_time", Some(json!(stamp(time(self.start)))));
        add("end_time", Some(json!(stamp(time(self.end)))));
        add("voting", Some(json!(self.voting)));
        add("log_url", opt(json!(self.log_url)));
        add("ref_url", opt(json!(self.ref_url)));
        add("artifacts", Some(json!(self.artifacts.iter().map(|(n, u)| json!({"name": n, "url": u, "metadata": {"type": n}})).collect::<Vec<_>>())));
        add("project", Some(json!(self.project)));
        add("branch", Some(json!(self.branch)));
        add("pipeline", Some(json!(self.pipeline)));
        add("change", opt(json!(self.change)));
        add("patchset", opt(json!(self.patchset)));
        add("ref", Some(json!(self.change_ref)));
        add("event_id", Some(json!(self.event)));
        for (k, v) in &self.extra {
            add(&format!("x_{}", k), Some(any_json(*v)));
        }
        out.push(("duration".into(), Some(duration)));
        let mut out: Vec<(String, String)> = out.into_iter().filter_map(|(k, v)| Some((k, v?))).collect();
        let mut seen = BTreeSet::new();
        out.retain(|(k, _)| seen.insert(k.clone()));
        let mut x = self.order;
        for i in (1..out.len()).rev() {
            x = mix(x);
            out.swap(i, x as usize % (i + 1));
        }
        out
    }
    fn text(&self) -> String {
        let f: Vec<String> = self.fields().into_iter().map(|(k, v)| format!("{}: {}", json!(k), v)).collect();
        format!("{{{}}}", f.join(",\n "))
    }
    fn url(s: &Option<String>) -> Option<url::Url> {
        s.as_ref().map(|s| url::Url::parse(s).unwrap())
    }
    fn build(&self) -> zuul_build::Build {
        zuul_build::Build {
            uuid: self.uuid.clone(),
            job_name: self.job.clone(),
            result: self.result.clone(),
            start_time: time(self.start),
            end_time: time(self.end),
            duration: self.duration,
            voting: self.voting,
            log_url: Spec::url(&self.log_url),
            ref_url: Spec::url(&self.ref_url),
            artifacts: self.artifacts.iter().map(|(n, u)| zuul_build::Artifact { name: n.clone(), url: url::Url::parse(u).unwrap() }).collect(),
            project: self.project.clone(),
            branch: self.branch.clone(),
            pipeline: self.pipeline.clone(),
            change: self.change,
            patchset: self.patchset.clone(),
            change_ref: self.change_ref.clone(),
            event_id: self.event.clone(),
        }
    }
    fn usable(&self) -> bool {
        self.log_url.is_some() && self.ref_url.is_some() && self.change.is_some()
    }
    /// The content expected for this build.
    fn content(&self, api: &str) -> Value {
        json!({
            "api": url::Url::parse(api).unwrap(), "uuid": self.uuid, "job_name": self.job, "project": self.project, "branch": self.branch, "result": self.result, "pipeline": self.pipeline,
            "log_url": Spec::url(&self.log_url), "ref_url": Spec::url(&self.ref_url), "end_time": time(self.end), "change": self.change
        })
    }
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof![3 => "[a-z]{1,8}([-/][a-z0-9]{1,5}){0,2}", 1 => "\\PC{0,10}", 1 => "[ -~]{0,12}"]
}

fn some_url() -> impl Strategy<Value = String> {
    prop_oneof![3 => "https://[a-z]{2,8}\\.example/[a-z0-9/]{0,20}", 1 => "http://localhost:[1-9][0-9]{2}/\\?q=[a-z%&=]{0,6}".prop_map(|s| s.replace('%', "%25")), 1 => Just("https://example.com/é漢 x".to_string())]
}

fn spec() -> impl Strategy<Value = Spec> {
    (
        ("[0-9a-f]{32}", text(), text(), any::<u32>(), any::<u32>(), prop_oneof![3 => 0u32..10000, 1 => any::<u32>()], 0u16..1000, any::<bool>()),
        (proptest::option::weighted(0.8, some_url()), proptest::option::weighted(0.8, some_url()), proptest::collection::vec((text(), some_url()), 0..3), text(), text(), text()),
        (proptest::option::weighted(0.8, prop_oneof![3 => 0u64..5, 1 => any::<u64>()]), proptest::option::of(text()), text(), text(), any::<bool>(), proptest::collection::vec(("[a-z]{1,4}", any::<u8>()), 0..3), any::<u64>(), any::<u8>()),
    )
        .prop_map(|((uuid, job, result, start, end, duration, fraction, voting), (log_url, ref_url, artifacts, project, branch, pipeline), (change, patchset, change_ref, event, absent, extra, order, number))| Spec {
            uuid, job, result, start, end, duration, fraction, voting, log_url, ref_url, artifacts, project, branch, pipeline, change, patchset, change_ref, event, absent, extra, order, number,
        })
}

// ---- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Entry {
    Good(Spec),
    /// a build without a required field, or with a field of another type
    Broken(Spec, u8, u8),
    Other(u8),
}

const REQUIRED: [&str; 13] = ["uuid", "job_name", "result", "start_time", "end_time", "duration", "voting", "artifacts", "project", "branch", "pipeline", "ref", "event_id"];

impl Entry {
    fn text(&self) -> String {
        match self {
            Entry::Good(s) => s.text(),
            Entry::Other(n) => any_json(*n).to_string(),
            Entry::Broken(s, field, how) => {
                let name = REQUIRED[*field as usize % REQUIRED.len()];
                let f: Vec<String> = s
                    .fields()
                    .into_iter()
                    .filter_map(|(k, v)| {
                        if k != name {
                            return Some(format!("{}: {}", json!(k), v));
                        }
                        let bad = match (how % 4, name) {
                            (0, _) => return None,
                            (1, _) => "null".to_string(),
                            (2, "duration") => "\"12\"".to_string(),
                            (2, "start_time" | "end_time") => ["\"2021-13-13T12:57:20\"", "\"yesterday\"", "\"\"", "\"2021-10-13\""][*how as usize / 4 % 4].to_string(),
                            (2, "artifacts") => "[{\"name\": \"x\", \"url\": \"not a url\"}]".to_string(),
                            (2, _) => "3.5".to_string(),
                            _ => "{}".to_string(),
                        };
                        Some(format!("{}: {}", json!(k), bad))
                    })
                    .collect();
                format!("{{{}}}", f.join(", "))
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Doc {
    builds: Vec<Spec>,
    edits: Vec<(u16, u8, u8)>,
    cut: Option<u16>,
    prefix: String,
}

fn c29(r: &mut Runner) {
    r.sub(
        "build",
        "generated builds, as sent by the API (any field order, extra fields, null or absent optional fields, durations with and without fraction, dates from 1970 to 2106); decoding gives the values sent, and encoding and decoding again gives the same build; non-trivial: always",
        r.cases(240_000, 1_000_000),
        spec,
        |s, info| {
            info.nontrivial();
            info.label_if(!s.usable(), "missing optional fields");
            let b = zuul_build::decode_build(s.text().as_bytes()).map_err(|e| format!("not decoded: {}", e))?;
            ensure!(b == s.build(), "decoded as {} instead of {}", short(&b), short(s.build()));
            let again = serde_json::to_vec(&b).map_err(|e| format!("not encoded: {}", e))?;
            let c = zuul_build::decode_build(&again[..]).map_err(|e| format!("not decoded after encoding: {}", e))?;
            ensure!(c == b, "decoded as {} after encoding instead of {}", short(&c), short(&b));
            Ok(())
        },
    );
    r.sub(
        "list",
        "lists of up to two thousand builds, some of them several times, broken builds (a required field missing, null or of another type, bad dates and urls) and other JSON values; the builds are kept in order and the rest is skipped; non-trivial: a build and something else",
        r.cases(90_000, 360_000),
        || {
            let entry = || prop_oneof![4 => spec().prop_map(Entry::Good), 3 => (spec(), any::<u8>(), any::<u8>()).prop_map(|(s, f, h)| Entry::Broken(s, f, h)), 1 => any::<u8>().prop_map(Entry::Other)];
            (proptest::collection::vec(entry(), 0..8), proptest::collection::vec((any::<u8>(), any::<u8>(), any::<bool>()), 0..4), prop_oneof![30 => Just(1usize), 1 => 2usize..200]).prop_map(|(mut l, copies, times)| {
                // the same build, or another one of its id, once more
                for (i, j, other) in copies {
                    if !l.is_empty() {
                        let mut e = l[i as usize % l.len()].clone();
                        if let Entry::Good(s) = &mut e {
                            if other {
                                s.end = s.end.wrapping_add(1);
                                s.result.push('x');
                            }
                        }
                        l.insert(j as usize % (l.len() + 1), e);
                    }
                }
                (0..times).flat_map(|_| l.clone()).collect::<Vec<Entry>>()
            })
        },
        |l, info| {
            let want: Vec<zuul_build::Build> = l.iter().filter_map(|e| if let Entry::Good(s) = e { Some(s.build()) } else { None }).collect();
            info.nontrivial_if(!want.is_empty() && want.len() < l.len());
            let text = format!("[{}]", l.iter().map(|e| e.text()).collect::<Vec<_>>().join(", "));
            let got = zuul_build::decode_builds(text.as_bytes()).map_err(|e| format!("not decoded: {}", e))?;
            ensure!(got == want, "{} builds are decoded out of {}: {}", got.len(), want.len(), short(&got));
            for e in l {
                if let Entry::Broken(..) | Entry::Other(_) = e {
                    ensure!(zuul_build::decode_build(e.text().as_bytes()).is_err(), "{} is decoded as a build", short(e.text()));
                }
            }
            Ok(())
        },
    );
    r.sub(
        "document",
        "documents made from lists of builds by cutting and changing bytes, and arbitrary texts; never a panic, and what is not a JSON list is an error; non-trivial: not a list",
        r.cases(90_000, 400_000),
        || {
            (proptest::collection::vec(spec(), 0..3), proptest::collection::vec((any::<u16>(), any::<u8>(), 0u8..3), 0..4), proptest::option::of(any::<u16>()), prop_oneof![4 => Just(String::new()), 1 => "\\PC{0,20}", 1 => "[\\[\\]{}\",:0-9a-z]{0,12}"])
                .prop_map(|(builds, edits, cut, prefix)| Doc { builds, edits, cut, prefix })
        },
        |d, info| {
            let mut text = format!("{}[{}]", d.prefix, d.builds.iter().map(|b| b.text()).collect::<Vec<_>>().join(",")).into_bytes();
            for (i, c, how) in &d.edits {
                let i = *i as usize % text.len();
                match how {
                    0 => text[i] = *c,
                    1 => text.insert(i, *c),
                    _ => {
                        text.remove(i);
                        text.push(b' ');
                    }
                }
            }
            if let Some(n) = d.cut {
                text.truncate(n as usize % (text.len() + 1));
            }
            let value: Option<Value> = serde_json::from_slice(&text).ok();
            let list = value.as_ref().is_some_and(|v| v.is_array());
            info.nontrivial_if(!list);
            let got = zuul_build::decode_builds(&text[..]);
            ensure!(got.is_ok() == list, "the answer is {} for a document that {} a list", short(&got), if list { "is" } else { "is not" });
            let one = zuul_build::decode_build(&text[..]);
            ensure!(one.is_err() || value.is_some_and(|v| v.is_object()), "a document that is not an object is decoded as a build");
            Ok(())
        },
    );
}

// ---- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Answer {
    Good,
    Status(u16),
    Drop,
    Truncate(u16),
    NotJson(String),
    Broken(u8, u8),
    List,
    /// well formed, without what is needed
    Lacking(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Page27 {
    prefix: Vec<String>,
    tenant: Option<String>,
    uid: String,
    tail: String,
    spec: Spec,
    answer: Answer,
}

fn segment() -> impl Strategy<Value = String> {
    prop_oneof![3 => "[a-z][a-z0-9._-]{0,8}", 1 => Just("t".to_string()), 1 => Just("build".to_string()), 1 => Just("api".to_string()), 1 => Just("tenant".to_string()), 1 => "[0-9a-f]{32}", 1 => Just("%20x".to_string())]
}

fn page27() -> impl Strategy<Value = Page27> {
    let answer = prop_oneof![
        12 => Just(Answer::Good),
        1 => prop_oneof![Just(404u16), Just(403), Just(500), Just(502)].prop_map(Answer::Status),
        1 => Just(Answer::Drop),
        1 => (0u16..1000).prop_map(Answer::Truncate),
        1 => prop_oneof![Just("".to_string()), Just("<html>".to_string()), Just("null".to_string()), Just("{}".to_string()), "\\PC{0,10}"].prop_map(Answer::NotJson),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Answer::Broken(a, b)),
        1 => Just(Answer::List),
    ];
    (
        proptest::collection::vec(segment(), 0..4),
        proptest::option::of(segment()),
        prop_oneof![3 => "[0-9a-f]{32}", 1 => "[0-9a-zA-Z]{32}"],
        prop_oneof![3 => Just("".to_string()), 1 => Just("?x=1".to_string()), 1 => Just("#logs".to_string()), 1 => Just("?p=/t/x/build/y".to_string()), 1 => Just("#/build/z".to_string())],
        spec(),
        answer,
    )
        .prop_map(|(prefix, tenant, uid, tail, spec, answer)| Page27 { prefix, tenant, uid, tail, spec, answer })
}

fn check_page(c: &Page27, server: &Server, info: &mut Info) -> Check {
    server.clear();
    let prefix: String = c.prefix.iter().map(|s| format!("/{}", s)).collect();
    // without tenant, t must not come two segments before build
    let multi = c.prefix.len() >= 2 && c.prefix[c.prefix.len() - 2] == "t";
    let (path, api) = match &c.tenant {
        Some(t) => (format!("{}/t/{}/build/{}", prefix, t, c.uid), format!("{}/api/tenant/{}/", prefix, t)),
        None if multi => {
            let n = c.prefix.len();
            let p: String = c.prefix[..n - 2].iter().map(|s| format!("/{}", s)).collect();
            (format!("{}/build/{}", prefix, c.uid), format!("{}/api/tenant/{}/", p, c.prefix[n - 1]))
        }
        None => (format!("{}/build/{}", prefix, c.uid), format!("{}/api/", prefix)),
    };
    let mut page = Page::new(c.spec.text());
    match &c.answer {
        Answer::Good | Answer::Lacking(_) => {}
        Answer::Status(n) => page.fault = Fault::Status(*n),
        Answer::Drop => page.fault = Fault::Drop,
        Answer::Truncate(n) => page.fault = Fault::Truncate(*n),
        Answer::NotJson(t) => page.body = t.clone().into_bytes(),
        Answer::Broken(f, h) => page.body = Entry::Broken(c.spec.clone(), *f, *h).text().into_bytes(),
        Answer::List => page.body = format!("[{}]", c.spec.text()).into_bytes(),
    }
    let want_path = format!("{}build/{}", api, c.uid);
    server.set(&want_path, page);
    let url = server.url(&format!("{}{}", path, c.tail));
    let good = matches!(c.answer, Answer::Good) && c.spec.usable();
    info.nontrivial_if(good && !c.prefix.is_empty());
    info.label(if good { "usable" } else { "unusable" });
    info.label_if(c.tenant.is_some() || multi, "tenant");
    let got = Content::from_url(url.clone());
    let requests: BTreeSet<String> = server.requests().into_iter().map(|r| r.1).collect();
    ensure!(requests == [want_path.clone()].into(), "{} makes the requests {:?} instead of {}", url, requests, want_path);
    match got {
        Ok(Content::Zuul(b)) => {
            ensure!(good, "{} is resolved from an unusable answer: {}", url, short(&b));
            let (got, want) = (serde_json::to_value(&*b).unwrap(), c.spec.content(&format!("http://{}{}", server.addr, api)));
            ensure!(got == want, "the build is {} instead of {}", short(got.to_string()), short(want.to_string()));
        }
        Ok(o) => return Err(format!("{} is {}", url, o)),
        Err(e) => ensure!(!good, "{} is not resolved: {:?}", url, e),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plain {
    prefix: Vec<String>,
    build: String,
    uid: String,
    tail: String,
}

fn c27(r: &mut Runner) {
    let server = Server::start();
    r.sub(
        "build",
        "urls made of a generated prefix (which may hold t, build, api and other ids), an optional tenant, an id and a query or fragment; the API request, and the fields of the resulting build, are the expected ones; unusable answers (error status, dropped or truncated, invalid or wrong JSON, missing urls or change) are errors; non-trivial: a usable answer behind a prefix",
        r.cases(60_000, 400_000),
        page27,
        |c, info| check_page(c, &server, info),
    );
    r.sub(
        "other",
        "urls that are not those of a build (id of another length or with other characters, other segment before it, something after it): a directory when the url ends with a slash, a file otherwise, without any request; non-trivial: one element from being a build",
        r.cases(80_000, 1_000_000),
        || {
            (
                proptest::collection::vec(segment(), 0..3),
                prop_oneof![2 => Just("build".to_string()), 1 => Just("builds".to_string()), 1 => Just("Build".to_string()), 1 => segment()],
                prop_oneof![2 => "[0-9a-f]{31}", 2 => "[0-9a-f]{33}", 2 => "[0-9a-zA-Z]{33,64}", 1 => "[0-9a-f]{40}|[0-9a-f]{64}|[0-9a-f]{16}|[0-9a-f]{8}", 2 => "[0-9a-f]{31}[-_.~]", 1 => "[0-9a-f]{32}", 1 => "[0-9a-f]{30}é", 1 => "[0-9a-f]{10}[é漢٣a-z]{22}", 1 => "[0-9a-f]{31}[é漢٣ß]", 1 => segment()],
                prop_oneof![3 => Just(String::new()), 2 => Just("/".to_string()), 1 => Just("/x".to_string()), 1 => Just("?a=b".to_string()), 1 => Just("?a=b/".to_string()), 1 => Just("/#x".to_string())],
            )
                .prop_map(|(prefix, build, uid, tail)| Plain { prefix, build, uid, tail })
        },
        |c, info| {
            server.clear();
            let path: String = c.prefix.iter().chain([&c.build, &c.uid]).map(|s| format!("/{}", s)).collect();
            let url = server.url(&format!("{}{}", path, c.tail));
            let segments: Vec<&str> = url.path_segments().unwrap().collect();
            let n = segments.len();
            if segments[n - 2] == "build" && segments[n - 1].len() == 32 && segments[n - 1].bytes().all(|b| b.is_ascii_alphanumeric()) {
                info.label("a build");
                return Ok(());
            }
            info.nontrivial_if(c.build == "build" || c.uid.len() == 32);
            let want = if url.as_str().ends_with('/') { Content::Directory(Source::Remote(0, url.clone())) } else { Content::File(Source::Remote(0, url.clone())) };
            let got = Content::from_url(url.clone()).map_err(|e| format!("{}: {:?}", url, e))?;
            ensure!(got == want, "{} is {} instead of {}", url, got, want);
            ensure!(server.requests().is_empty(), "{} makes the requests {:?}", url, server.requests());
            Ok(())
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "retry",
        "the program is given the url of a build, with the cache enabled, while the API gives 0-3 unusable answers, one per run: these runs fail, and the one after gives the report of the build; non-trivial: an anomaly after a failure",
        r.cases(1_600, 8_000),
        || program(3, false),
        |c, info| check_program(c, &server, &scratch, info),
    );
}

// ---- C28

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Candidate {
    own: bool,
    job: u8,
    result: u8,
    project: u8,
    branch: u8,
    pipeline: u8,
    change: Option<u8>,
    voting: bool,
    age: u16,
    log: Log,
    ref_url: bool,
    broken: Option<(u8, u8)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Log {
    None,
    Ok,
    Status(u16),
    Drop,
    Redirect(bool),
}

const JOBS: [&str; 3] = ["tox-py38", "tox py&38=x", "tox-py3"];
const RESULTS: [&str; 3] = ["SUCCESS", "FAILURE", "SUCCESSFUL"];
const PROJECTS: [&str; 2] = ["zuul/zuul", "zuul/nodepool"];
const BRANCHES: [&str; 2] = ["master", "stable"];
const PIPELINES: [&str; 9] = ["check", "gate", "periodic", "post", "periodic-weekly", "experimental", "tripleo-gate", "gate-next", "openstack-periodic-daily"];

fn candidate() -> impl Strategy<Value = Candidate> {
    (
        (proptest::bool::weighted(0.07), prop_oneof![9 => Just(0u8), 1 => 1u8..3], prop_oneof![9 => Just(0u8), 1 => 1u8..3], 0u8..2, 0u8..2, 0u8..9),
        (proptest::option::weighted(0.9, 0u8..4), any::<bool>(), prop_oneof![4 => 0u16..12, 2 => 0u16..150, 1 => 0u16..3000, 1 => 1000u16..18000]),
        (
            prop_oneof![9 => Just(Log::Ok), 1 => Just(Log::None), 2 => prop_oneof![Just(404u16), Just(403), Just(500), Just(410)].prop_map(Log::Status), 1 => Just(Log::Drop), 1 => any::<bool>().prop_map(Log::Redirect)],
            proptest::bool::weighted(0.9),
            proptest::option::weighted(0.06, (any::<u8>(), any::<u8>())),
        ),
    )
        .prop_map(|((own, job, result, project, branch, pipeline), (change, voting, age), (log, ref_url, broken))| Candidate { own, job, result, project, branch, pipeline, change, voting, age, log, ref_url, broken })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Discovery {
    job: u8,
    project: u8,
    branch: u8,
    change: u8,
    candidates: Vec<Candidate>,
    tenant: bool,
    answer: Answer,
    future: bool,
    /// days added to all the ages
    #[serde(default)]
    old: u16,
}

fn discovery() -> impl Strategy<Value = Discovery> {
    let answer = prop_oneof![
        30 => Just(Answer::Good),
        1 => prop_oneof![Just(404u16), Just(500)].prop_map(Answer::Status),
        1 => Just(Answer::Drop),
        1 => (0u16..1000).prop_map(Answer::Truncate),
        1 => prop_oneof![Just("".to_string()), Just("{}".to_string()), Just("[".to_string()), Just("null".to_string())].prop_map(Answer::NotJson),
    ];
    (prop_oneof![9 => Just(0u8), 1 => 1u8..3], 0u8..2, 0u8..2, 0u8..4, prop_oneof![
            8 => proptest::collection::vec(candidate(), 0..12),
            1 => proptest::collection::vec(candidate(), 50..90),
            // most of them are gone
            1 => (proptest::collection::vec(candidate(), 1..80), any::<u8>(), 0u8..8).prop_map(|(mut cs, good, how)| {
                let n = cs.len();
                for (i, c) in cs.iter_mut().enumerate() {
                    c.log = match how {
                        _ if i == good as usize % n => c.log.clone(),
                        0 => Log::Drop,
                        1 => Log::None,
                        2 => Log::Redirect(false),
                        3 if i % 2 == 0 => Log::Drop,
                        _ => Log::Status(404),
                    };
                }
                cs
            }),
        ], any::<bool>(), answer, proptest::bool::weighted(0.2), prop_oneof![5 => Just(0u16), 1 => 500u16..1500])
        .prop_map(|(job, project, branch, change, candidates, tenant, answer, future, old)| Discovery { job, project, branch, change, candidates, tenant, answer, future, old })
}

struct Api {
    api: String,
    target: Spec,
    /// with the text and whether it is a usable build
    builds: Vec<(Spec, bool, bool)>,
}

fn blank() -> Spec {
    Spec {
        uuid: String::new(), job: String::new(), result: String::new(), start: 1_600_000_000, end: 1_600_000_000, duration: 5, fraction: 0, voting: false, log_url: None, ref_url: None, artifacts: vec![],
        project: String::new(), branch: String::new(), pipeline: String::new(), change: None, patchset: None, change_ref: "refs".into(), event: "event".into(), absent: false, extra: vec![], order: 3, number: 0,
    }
}

const JOB: usize = 0;

impl Discovery {
    fn setup(&self, server: &Server, now: DateTime<Utc>) -> Api {
        server.clear();
        let root = web::fresh_prefix("z");
        let api = if self.tenant { format!("{}api/tenant/local/", root) } else { format!("{}api/", root) };
        let base = format!("http://{}", server.addr);
        let job = JOBS[(self.job as usize + JOB) % JOBS.len()];
        let target = Spec {
            uuid: "0".repeat(32), job: job.into(), result: "FAILURE".into(), project: PROJECTS[self.project as usize % 2].into(), branch: BRANCHES[self.branch as usize % 2].into(), pipeline: "check".into(),
            log_url: Some(format!("{}{}logs/target/", base, root)), ref_url: Some("https://example.com/target".into()), change: Some(self.change as u64), end: now.timestamp() as u32, ..blank()
        };
        let mut builds = vec![];
        let mut texts = vec![];
        for (i, c) in self.candidates.iter().enumerate() {
            let path = format!("{}logs/{}/", root, i);
            let mut page = Page::new("<html></html>");
            let mut alive = true;
            match &c.log {
                Log::Status(n) => {
                    page.fault = Fault::Status(*n);
                    alive = false
                }
                Log::Drop => {
                    page.fault = Fault::Drop;
                    alive = false
                }
                Log::Redirect(good) => {
                    page.redirect = Some(format!("{}logs/{}-moved/", root, i));
                    if *good {
                        server.set(&format!("{}logs/{}-moved/", root, i), Page::new("<html></html>"));
                    }
                    alive = *good;
                }
                _ => {}
            }
            if c.log != Log::None {
                server.set(&path, page);
            }
            let end = if self.future && i % 3 == 0 { now + Duration::days(c.age as i64 % 4) } else { now - Duration::days(c.age as i64 + self.old as i64) };
            let s = Spec {
                uuid: if c.own { target.uuid.clone() } else { format!("{:032x}", i + 1) },
                job: JOBS[c.job as usize % JOBS.len()].into(),
                result: RESULTS[c.result as usize % RESULTS.len()].into(),
                project: PROJECTS[c.project as usize % 2].into(),
                branch: BRANCHES[c.branch as usize % 2].into(),
                pipeline: PIPELINES[c.pipeline as usize % PIPELINES.len()].into(),
                voting: c.voting,
                change: c.change.map(|c| c as u64),
                log_url: (c.log != Log::None).then(|| format!("{}{}", base, path)),
                ref_url: c.ref_url.then(|| format!("https://example.com/{}", i)),
                end: end.timestamp() as u32,
                order: i as u64,
                ..blank()
            };
            let text = match &c.broken {
                Some((f, h)) => Entry::Broken(s.clone(), *f, *h).text(),
                None => s.text(),
            };
            let fields = [("project", s.project.clone()), ("branch", s.branch.clone()), ("pipeline", s.pipeline.clone()), ("voting", s.voting.to_string()), ("change", s.change.map(|c| c.to_string()).unwrap_or_default()), ("uuid", s.uuid.clone())];
            texts.push((s.job.clone(), s.result.clone(), text, fields));
            builds.push((s, c.broken.is_none(), alive));
        }
        // the API filters, and limits its answers
        let answer = self.answer.clone();
        let builds_path = format!("{}builds", api);
        server.handle(Arc::new(move |path: &str| {
            let url = url::Url::parse(&format!("http://x{}", path)).ok()?;
            if url.path() != builds_path {
                return None;
            }
            let get = |k: &str| url.query_pairs().find(|(n, _)| n == k).map(|(_, v)| v.to_string());
            let (job, result, limit) = (get("job_name"), get("result"), get("limit").and_then(|l| l.parse().ok()).unwrap_or(50usize));
            let list: Vec<String> = texts.iter().filter(|t| job.as_ref().is_none_or(|j| *j == t.0) && result.as_ref().is_none_or(|r| *r == t.1) && t.3.iter().all(|(k, v)| get(k).is_none_or(|g| g == *v))).map(|t| t.2.clone()).take(limit).collect();
            let mut page = Page::new(format!("[{}]", list.join(",")));
            match &answer {
                Answer::Status(n) => page.fault = Fault::Status(*n),
                Answer::Drop => page.fault = Fault::Drop,
                Answer::Truncate(n) => page.fault = Fault::Truncate(*n),
                Answer::NotJson(t) => page.body = t.clone().into_bytes(),
                _ => {}
            }
            Some(page)
        }));
        Api { api: format!("{}{}", base, api), target, builds }
    }
}

fn rank(t: &Spec, s: &Spec, today: NaiveDate) -> i64 {
    let mut n = 0;
    if s.project == t.project {
        n += if s.change == t.change { -500 } else { 50 };
    }
    if s.branch == t.branch {
        n += 50;
    }
    if s.pipeline.contains("gate") || s.pipeline.contains("periodic") {
        n += 50;
    }
    if s.voting {
        n += 10;
    }
    n - today.signed_duration_since(time(s.end).date_naive()).num_days().max(0)
}

fn check_discovery(d: &Discovery, server: &Server, info: &mut Info) -> Check {
    let now = Utc::now();
    let api = d.setup(server, now);
    let target = Content::Zuul(Box::new(serde_json::from_value(api.target.content(&api.api)).map_err(|e| e.to_string())?));
    let got = target.discover_baselines();
    let today = now.date_naive();
    if Utc::now().date_naive() != today {
        info.label("midnight");
        return Ok(());
    }
    let good: Vec<(&Spec, i64)> = match d.answer {
        Answer::Good => api
            .builds
            .iter()
            .filter(|(s, ok, alive)| *ok && *alive && s.job == api.target.job && s.result == "SUCCESS" && s.usable() && s.uuid != api.target.uuid)
            .map(|(s, ..)| (s, rank(&api.target, s, today)))
            .collect(),
        _ => vec![],
    };
    let best = good.iter().map(|g| g.1).max();
    let ranks: BTreeSet<i64> = good.iter().map(|g| g.1).collect();
    info.nontrivial_if(ranks.len() > 1);
    info.label_if(good.is_empty(), "none");
    match got {
        Err(e) => {
            ensure!(good.is_empty(), "no baseline is found ({:?}), {} qualify", e, good.len());
        }
        Ok(bs) => {
            ensure!(bs.len() == 1, "{} baselines are chosen", bs.len());
            let Content::Zuul(b) = &bs[0] else { return Err(format!("the baseline is {}", bs[0])) };
            ensure!(!good.is_empty(), "{} is chosen and none qualifies", b);
            let Some((s, n)) = good.iter().find(|g| g.0.uuid == b.uuid) else {
                return Err(format!("the build {} is chosen and does not qualify", b.uuid));
            };
            ensure!(Some(*n) == best, "the build {} of rank {} is chosen, one has {:?}", b.uuid, n, best);
            let (got, want) = (serde_json::to_value(&**b).unwrap(), s.content(&api.api));
            ensure!(got == want, "the baseline is {} instead of {}", short(got.to_string()), short(want.to_string()));
        }
    }
    Ok(())
}

/// The whole program on a Zuul build: the logs of the target against those of the chosen build.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
    base: Base,
    files: Vec<FileSpec>,
    tenant: bool,
    style: u8,
    /// The log url of the target has no trailing slash, and is redirected.
    #[serde(default)]
    no_slash: bool,
    /// Answers of the API (to the query of the build or of the list of builds) before it works, each for a run.
    #[serde(default)]
    failures: Vec<(bool, Answer)>,
    /// A run during which the logs of the best build can't be reached.
    #[serde(default)]
    unreachable: bool,
    /// A last run without server, from the cache.
    #[serde(default)]
    gone: bool,
}

fn failure() -> impl Strategy<Value = Answer> {
    prop_oneof![
        1 => prop_oneof![Just(404u16), Just(500), Just(503)].prop_map(Answer::Status),
        1 => Just(Answer::Drop),
        2 => (0u16..1000).prop_map(Answer::Truncate),
        3 => prop_oneof![Just("".to_string()), Just("{".to_string()), Just("[".to_string()), Just("nul".to_string()), Just("<html>".to_string()), Just("42".to_string())].prop_map(Answer::NotJson),
        3 => any::<u8>().prop_map(Answer::Lacking),
    ]
}

fn program(failures: usize, list: bool) -> impl Strategy<Value = Program> {
    (base(), files(4, false), any::<bool>(), 0u8..5, any::<bool>(), proptest::collection::vec((any::<bool>(), failure()), 0..=failures), any::<bool>(), any::<bool>()).prop_map(move |(base, mut files, tenant, style, no_slash, mut failures, gone, unreachable)| {
        let mut kinds = BTreeSet::new();
        files.retain(|f| kinds.insert(f.kind()));
        for f in &mut failures {
            f.0 &= list;
        }
        Program { base, files, tenant, style, no_slash, failures, unreachable: unreachable && list, gone }
    })
}

fn check_program(c: &Program, server: &Server, scratch: &Path, info: &mut Info) -> Check {
    let dir = case_dir(scratch);
    let candidate = Candidate { own: false, job: 0, result: 0, project: 0, branch: 0, pipeline: 1, change: Some(2), voting: true, age: 1, log: Log::Ok, ref_url: true, broken: None };
    let poor = Candidate { branch: 1, age: 40, ..candidate.clone() };
    let d = Discovery { job: 0, project: 0, branch: 0, change: 1, candidates: vec![poor, candidate], tenant: c.tenant, answer: Answer::Good, future: false, old: 0 };
    let mut api = d.setup(server, Utc::now());
    let path = |u: &Option<String>| url::Url::parse(u.as_ref().unwrap()).unwrap().path().to_string();
    let pages: Vec<(String, Page)> = c.files.iter().map(|f| (f.name(), Page { gzip: f.gz(), ..Page::new(FileSpec { variant: 0, ..f.clone() }.on_disk(c.base.n)) })).collect();
    web::serve_tree(server, &path(&api.target.log_url), &pages, c.style);
    let pages: Vec<(String, Page)> = c.base.files().into_iter().map(|(_, name, data)| (name.clone(), Page { gzip: name.ends_with(".gz"), ..Page::new(data) })).collect();
    web::serve_tree(server, &path(&api.builds[1].0.log_url), &pages, c.style);
    if c.no_slash {
        let to = path(&api.target.log_url);
        api.target.log_url = api.target.log_url.map(|u| u.trim_end_matches('/').to_string());
        server.set(to.trim_end_matches('/'), Page { redirect: Some(to.clone()), ..Page::new("") });
        info.label("no slash");
    }
    let api_path = url::Url::parse(&api.api).unwrap().path().to_string();
    let build_path = format!("{}build/{}", api_path, api.target.uuid);
    let builds_path = format!("{}builds", api_path);
    server.set(&build_path, Page::new(api.target.text()));
    let web = if c.tenant { api_path.replace("/api/tenant/local/", "/t/local/") } else { api_path.replace("/api/", "/") };
    let args: Vec<OsString> = vec!["--report".into(), dir.path().join("out.html").into(), "url".into(), server.url(&format!("{}build/{}", web, api.target.uuid)).to_string().into()];
    let order: Vec<String> = c.files.iter().map(|f| f.name()).collect();
    let Some(want) = expected(&c.base, &c.files, &order, true) else {
        info.label("undecided");
        return Ok(());
    };
    info.nontrivial_if(want.anomalies > 0);
    let run = || cli::logreduce_env(dir.path(), &args, false, &[("LOGREDUCE_CACHE", "1")]);
    for (list, answer) in &c.failures {
        let mut page = Page::new(api.target.text());
        if let Answer::Lacking(n) = answer {
            let lack = |s: &Spec| {
                let mut s = s.clone();
                match n % 3 {
                    0 => s.log_url = None,
                    1 => s.ref_url = None,
                    _ => s.change = None,
                }
                s.absent = n % 2 == 0;
                s.text()
            };
            let best = &api.builds[1].0;
            let gone = Spec { log_url: best.log_url.as_ref().map(|u| format!("{}gone/", u)), ..best.clone() };
            page.body = match n / 6 % 6 {
                _ if !*list => lack(&api.target),
                0 => "[]".to_string(),
                1 => format!("[{}]", lack(best)),
                2 => "[{}, null]".to_string(),
                3 => format!("[{}]", api.target.text()),
                4 => format!("[{}]", gone.text()),
                _ => format!("[{}, {}]", lack(best), lack(&gone)),
            }
            .into_bytes();
        }
        match answer {
            Answer::Status(n) => page.fault = Fault::Status(*n),
            Answer::Drop => page.fault = Fault::Drop,
            Answer::Truncate(n) => page.fault = Fault::Truncate(*n),
            Answer::NotJson(t) => page.body = t.clone().into_bytes(),
            _ => {}
        }
        info.label(if *list { "the list fails first" } else { "the build fails first" });
        let asked = |path: &str| server.requests().iter().filter(|r| r.1.split('?').next() == Some(path)).count();
        let n = asked(&builds_path);
        if *list {
            server.override_path(&builds_path, Some(page));
        } else {
            server.set(&build_path, page);
        }
        let before = server.requests().len();
        let out = run();
        server.override_path(&builds_path, None);
        server.set(&build_path, Page::new(api.target.text()));
        ensure!(!out.crashed(), "the program crashes: {}", short(&out.stderr));
        if server.requests().len() == before {
            // everything is cached since an earlier attempt
            continue;
        }
        if *list && asked(&builds_path) == n {
            continue;
        }
        let cached_build = !*list && server.requests()[before..].iter().all(|r| r.1 != build_path);
        ensure!(cached_build || out.code != Some(0), "the answer {:?} gives a result", answer);
    }
    if c.unreachable {
        // the other build is taken for this run, not for the next one
        info.label("unreachable logs");
        let logs = path(&api.builds[1].0.log_url);
        server.override_path(&logs, Some(Page { fault: Fault::Drop, ..Page::new("") }));
        let out = run();
        server.override_path(&logs, None);
        ensure!(!out.crashed(), "the program crashes: {}", short(&out.stderr));
    }
    let _ = std::fs::remove_file(dir.path().join("out.json"));
    let mut runs = vec!["the run"];
    if c.gone {
        runs.push("the run without server");
    }
    for name in runs {
        let _ = std::fs::remove_file(dir.path().join("out.json"));
        let out = run();
        ensure!(!out.crashed() && out.code == Some(0), "{}: exit status {:?}: {}", name, out.code, short(&out.stderr));
        let report = logreduce_model::Report::load(&dir.path().join("out.json")).map_err(|e| format!("{}: no report: {:?}", name, e))?;
        let uuids: Vec<&str> = report.baselines.iter().map(|b| if let Content::Zuul(b) = b { b.uuid.as_str() } else { "?" }).collect();
        ensure!(uuids == vec![api.builds[1].0.uuid.as_str()], "{}: the baselines are {:?}", name, uuids);
        same_view(&want, &view(&report)?).map_err(|e| format!("{}: {}", name, e))?;
        for l in &report.log_reports {
            ensure!(order.iter().any(|n| n == l.source.get_relative()), "{}: a file is named {:?}, they are {:?}", name, l.source.get_relative(), order);
        }
        server.clear();
    }
    Ok(())
}

fn c28(r: &mut Runner) {
    let server = Server::start();
    r.sub(
        "discover",
        "0-12 or 50-90 builds (or up to 80 of which all but one are gone) of several jobs, results, projects, branches, pipelines, changes and ages, some broken, without urls or change, whose logs are available, missing, refused, dropped or moved, and API answers that fail; the chosen one qualifies and none that qualifies ranks higher, without any it is an error; non-trivial: two qualify with different ranks",
        r.cases(20_000, 300_000),
        discovery,
        |d, info| check_discovery(d, &server, info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "program",
        "the program is given the url of a build, with the cache enabled and after 0-3 runs where the API gives an unusable answer and possibly one where the logs of the best build drop the connection: its logs are compared with those of the better of two builds, as for local files, and a last run without server gives the same; non-trivial: an anomaly",
        r.cases(1000, 10000),
        || program(3, true),
        |c, info| check_program(c, &server, &scratch, info),
    );
}
