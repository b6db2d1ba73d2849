//! C24-C26: remote logs.
use crate::cli::logreduce_env;
use crate::engine::*;
use crate::server::{self, Page, Server};
use crate::trees::*;
use crate::web;
use crate::{ensure, prop, Prop};
use logreduce_model::{hashing_index, Content, Model, OutputMode, Report};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::path::Path;
use url::Url;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C24", "exploration", c24, &["pages link their entries as <a href=\"...\"> within their own directory, plus parent and sort links", "interleavings are provoked by response delays"]),
        prop("C25", "fault-injection", c25, &["faults: http error status, dropped connection, truncated body"]),
        prop("C26", "fault-injection", c26, &["the reference detector of C10 decides the anomalies", "compressed files are served with the gzip content encoding"]),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Site {
    /// directories by their parent (index modulo what precedes) and name
    dirs: Vec<(u16, String)>,
    files: Vec<(u16, String)>,
    style: u8,
    delays: Vec<u8>,
    chunked: bool,
    #[serde(default)]
    gzip: bool,
    prefix: String,
}

fn name() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "[a-z]{1,8}(\\.log|\\.txt|\\.gz)?",
        2 => "[a-zA-Z0-9_.~%+@()=,;&'!-]{1,14}",
        1 => "[ -.0-~]{1,10}",
        1 => "[a-zé漢]{1,6}",
        1 => prop_oneof![Just("a"), Just("etc.log"), Just("xindex.html"), Just("index.htm"), Just("etcetera"), Just("myetc"), Just("index.html.gz"), Just("?C=N"), Just("#top"), Just("a b"), Just("100%"), Just("%41")].prop_map(|s| s.to_string()),
    ]
    // not usable as file names, or the page itself
    .prop_map(|s| if matches!(s.as_str(), "." | ".." | "index.html") { format!("x{}", s) } else { s })
}

fn site(max_dirs: usize, slow: bool) -> impl Strategy<Value = Site> {
    (
        proptest::collection::vec((any::<u16>(), prop_oneof![6 => name(), 1 => Just("etc".to_string())]), 0..max_dirs),
        proptest::collection::vec((any::<u16>(), name()), 0..25),
        0u8..5,
        proptest::collection::vec(if slow { prop_oneof![3 => Just(0u8), 1 => 1u8..12].boxed() } else { Just(0u8).boxed() }, 1..6),
        (any::<bool>(), any::<bool>()),
        prop_oneof![Just(String::new()), "([a-z]{1,7}/){1,3}", Just("very/long/".repeat(20))],
    )
        .prop_map(|(dirs, files, style, delays, (chunked, gzip), prefix)| Site { dirs, files, style, delays, chunked, gzip, prefix })
}

struct Served {
    root: Url,
    files: BTreeSet<Url>,
    /// the index pages that are crawled
    pages: Vec<String>,
}

impl Site {
    fn serve(&self, server: &Server) -> Served {
        let prefix = format!("{}{}", web::fresh_prefix("s"), self.prefix);
        // directory paths, below the root
        let mut dirs = vec![String::new()];
        let mut names: BTreeMap<String, (BTreeSet<String>, BTreeSet<String>)> = BTreeMap::new();
        for (p, n) in &self.dirs {
            let parent = dirs[*p as usize % dirs.len()].clone();
            if names.entry(parent.clone()).or_default().0.insert(n.clone()) {
                dirs.push(format!("{}{}/", parent, n));
            }
        }
        for (p, n) in &self.files {
            let parent = dirs[*p as usize % dirs.len()].clone();
            let e = names.entry(parent).or_default();
            if !e.0.contains(n) {
                e.1.insert(n.clone());
            }
        }
        let base = format!("http://{}", server.addr);
        let mut out = Served { root: server.url(&prefix), files: BTreeSet::new(), pages: vec![] };
        for (i, d) in dirs.iter().enumerate() {
            let (subs, files) = names.get(d).cloned().unwrap_or_default();
            let path = format!("{}{}", prefix, d.split('/').map(web::quote).collect::<Vec<_>>().join("/"));
            let parent = format!("{}/", path.trim_end_matches('/').rsplit_once('/').map(|p| p.0).unwrap_or(""));
            let mut page = Page::new(web::index_page(&base, &path, &parent, &subs, &files, self.style));
            page.delay_ms = self.delays[i % self.delays.len()] as u16;
            page.chunked = self.chunked;
            page.gzip = self.gzip;
            server.set(&path, page);
            if format!("/{}", d).contains("/etc/") {
                continue;
            }
            out.pages.push(path.clone());
            for f in files {
                out.files.insert(server.url(&format!("{}{}", path, web::quote(&f))));
            }
        }
        out
    }
}

fn same_urls(what: &str, want: &BTreeSet<Url>, got: &[Url]) -> Check {
    let set: BTreeSet<Url> = got.iter().cloned().collect();
    for u in want {
        ensure!(set.contains(u), "{}: {} is missing", what, u);
    }
    for u in &set {
        ensure!(want.contains(u), "{}: {} is not a file of the tree", what, u);
    }
    ensure!(set.len() == got.len(), "{}: {} urls are listed, {} are distinct", what, got.len(), set.len());
    Ok(())
}

fn c24(r: &mut Runner) {
    let server = Server::start();
    r.sub(
        "crawl",
        "generated trees of 0-12 directories and 0-24 files with unusual names and etc directories, served as index pages in five link styles (relative, absolute, full urls, index.html, icons), with generated response delays; the list and the iterator give each file once and nothing else; non-trivial: a sub-directory and two files",
        r.cases(7_200, 40_000),
        || site(12, true),
        |s, info| {
            server.clear();
            let w = s.serve(&server);
            info.nontrivial_if(w.pages.len() > 1 && w.files.len() > 1);
            info.label_if(s.dirs.iter().any(|d| d.1 == "etc"), "etc");
            info.label_if(s.style == 2, "index.html links");
            info.label_if(s.style == 3, "double links");
            let list = httpdir::list(w.root.clone()).map_err(|e| format!("the list fails: {}", e))?;
            same_urls("list", &w.files, &list)?;
            let walk = httpdir::Crawler::new().walk(w.root.clone()).collect::<Result<Vec<_>, _>>().map_err(|e| format!("the iterator fails: {}", e))?;
            same_urls("iterator", &w.files, &walk)
        },
    );
    r.sub(
        "big",
        "deep chains of directories, wide directories of hundreds of files and many small directories: as above; non-trivial: more than 50 pages or 100 files",
        r.cases(240, 2_000),
        || {
            (0u8..3, 1u16..120, site(4, true)).prop_map(|(shape, n, mut s)| {
                match shape {
                    0 => s.dirs = (0..n).map(|i| (i, format!("d{}", i % 7))).collect(),
                    1 => s.files = (0..n * 4).map(|i| (i % 3, format!("f{}.log", i))).collect(),
                    _ => {
                        s.dirs = (0..n).map(|i| (mix(i as u64) as u16, format!("d{}", i))).collect();
                        s.files = (0..n * 2).map(|i| (mix(i as u64 + 9) as u16, format!("f{}.log", i))).collect();
                    }
                }
                s
            })
        },
        |s, info| {
            server.clear();
            let w = s.serve(&server);
            info.nontrivial_if(w.pages.len() > 50 || w.files.len() > 100);
            let list = httpdir::list(w.root.clone()).map_err(|e| format!("the list fails: {}", e))?;
            same_urls("list", &w.files, &list)?;
            let walk = httpdir::Crawler::new().walk(w.root.clone()).collect::<Result<Vec<_>, _>>().map_err(|e| format!("the iterator fails: {}", e))?;
            same_urls("iterator", &w.files, &walk)
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    Status(u16),
    Drop,
    Truncate(u16),
    /// the compressed content is cut, and sent as if it was complete
    Damage(u16),
}

impl Bad {
    fn fault(&self) -> server::Fault {
        match self {
            Bad::Status(n) => server::Fault::Status(*n),
            Bad::Drop => server::Fault::Drop,
            Bad::Truncate(n) => server::Fault::Truncate(*n),
            Bad::Damage(n) => server::Fault::Damage(*n),
        }
    }
}

fn bad() -> impl Strategy<Value = Bad> {
    prop_oneof![
        2 => prop_oneof![Just(400u16), Just(401), Just(403), Just(404), Just(429), Just(500), Just(502), Just(503), Just(504)].prop_map(Bad::Status),
        1 => Just(Bad::Drop),
        2 => (0u16..1000).prop_map(Bad::Truncate),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crawl {
    site: Site,
    bad: Vec<(u16, Bad)>,
}

fn c25(r: &mut Runner) {
    let server = Server::start();
    r.sub(
        "history",
        "1-4 crawls made with one crawler over generated trees, of which 0-2 pages fail (error status, dropped connection, body truncated anywhere, compressed content that ends early); a crawl with a failing page is an error for the list and has an error for the iterator, the others give the complete list; non-trivial: a failing crawl",
        r.cases(8_000, 40_000),
        || {
            proptest::collection::vec(
                (site(6, true), prop_oneof![2 => Just(vec![]).boxed(), 3 => proptest::collection::vec((any::<u16>(), prop_oneof![5 => bad(), 1 => (0u16..1000).prop_map(Bad::Damage)]), 1..3).boxed()]).prop_map(|(site, bad)| Crawl { site, bad }),
                1..5,
            )
        },
        |crawls, info| {
            server.clear();
            let crawler = httpdir::Crawler::new();
            for (i, c) in crawls.iter().enumerate() {
                let w = c.site.serve(&server);
                for (p, b) in &c.bad {
                    let path = &w.pages[*p as usize % w.pages.len()];
                    server.fail(path, b.fault());
                }
                let failing = !c.bad.is_empty();
                info.nontrivial_if(failing);
                info.label_if(failing && i + 1 < crawls.len(), "crawl after a failure");
                match crawler.list(w.root.clone()) {
                    Ok(l) => {
                        ensure!(!failing, "crawl {}: {} files are listed as if no page had failed ({:?})", i, l.len(), c.bad);
                        same_urls(&format!("crawl {}", i), &w.files, &l)?
                    }
                    Err(e) => ensure!(failing, "crawl {} fails: {}", i, e),
                }
                let mut errors = 0;
                let mut urls = vec![];
                for item in httpdir::Crawler::new().walk(w.root.clone()).take(10_000) {
                    match item {
                        Ok(u) => urls.push(u),
                        Err(_) => errors += 1,
                    }
                }
                ensure!((errors > 0) == failing, "crawl {}: the iterator yields {} errors ({:?})", i, errors, c.bad);
                if failing {
                    let set: BTreeSet<Url> = urls.iter().cloned().collect();
                    ensure!(set.is_subset(&w.files) && set.len() == urls.len(), "crawl {}: the iterator yields {}", i, short(&urls));
                } else {
                    same_urls(&format!("iterator {}", i), &w.files, &urls)?;
                }
            }
            Ok(())
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Remote {
    base: Base,
    files: Vec<FileSpec>,
    bad: Vec<Option<Bad>>,
    style: u8,
    remote_base: bool,
    single: bool,
    /// appended to the url of a single file
    #[serde(default)]
    suffix: String,
    chunked: bool,
    prefix: String,
    cached: After,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum After {
    /// the server is gone
    Gone,
    /// the failures are repaired
    Repaired,
    /// nothing changes
    Same,
}

fn remote() -> impl Strategy<Value = Remote> {
    (
        base(),
        files(7, true),
        proptest::collection::vec(proptest::option::weighted(0.25, bad()), 7),
        0u8..5,
        any::<bool>(),
        (proptest::bool::weighted(0.2), prop_oneof![2 => Just(""), 1 => Just("?x=1"), 1 => Just("?raw=true&file=a/b.log"), 1 => Just("?a%20b=%2F"), 1 => Just("#L12")]),
        any::<bool>(),
        prop_oneof![Just(String::new()), "([a-z]{1,7}/){1,3}", Just("very/long/".repeat(20))],
        prop_oneof![Just(After::Gone), Just(After::Repaired), Just(After::Same)],
    )
        .prop_map(|(mut base, mut files, bad, style, remote_base, (single, suffix), chunked, prefix, cached)| {
            if single {
                // the name of its directory counts: only a single index is sure to be used
                files.truncate(1);
                let k = *base.kinds.iter().next().unwrap();
                base.kinds = [k].into();
            }
            for f in files.iter_mut() {
                if f.fault != Fault::BadUtf8 {
                    f.fault = Fault::No;
                }
            }
            Remote { base, files, bad, style, remote_base, single, suffix: suffix.to_string(), chunked, prefix, cached }
        })
}

fn page_of(f: &FileSpec, n: u32, chunked: bool) -> Page {
    let mut plain = f.clone();
    plain.variant = 0;
    let mut page = Page::new(plain.on_disk(n));
    page.gzip = f.gz();
    page.chunked = chunked;
    page
}

impl Remote {
    fn bad(&self, i: usize) -> Option<&Bad> {
        self.bad.get(i).and_then(|b| b.as_ref())
    }
    fn truncated(&self, name: &str) -> bool {
        self.files.iter().enumerate().any(|(i, f)| f.name() == name && matches!(self.bad(i), Some(Bad::Truncate(_))) && !f.on_disk(self.base.n).is_empty())
    }
    /// One truncated file per kind, without others: what is read of it depends on the buffers.
    fn simplify(&mut self) {
        for i in (0..self.files.len()).rev() {
            if matches!(self.bad(i), Some(Bad::Truncate(_))) {
                let k = self.files[i].kind();
                let others = self.files.iter().filter(|f| f.kind() == k).count();
                if others > 1 {
                    self.bad[i] = None;
                }
            }
        }
    }
    /// Serve the target; its url.
    fn serve(&self, server: &Server, root: &str) -> String {
        let pages: Vec<(String, Page)> = self
            .files
            .iter()
            .enumerate()
            .map(|(i, f)| {
                let mut p = page_of(f, self.base.n, self.chunked);
                if let Some(b) = self.bad(i) {
                    p.fault = b.fault();
                }
                (f.name(), p)
            })
            .collect();
        web::serve_tree(server, root, &pages, self.style);
        if self.single {
            let path = format!("{}{}", root, self.files[0].name());
            let url = format!("{}{}", path, self.suffix);
            if self.suffix.starts_with('?') {
                // the query matters
                server.set(&url, pages[0].1.clone());
                server.set(&path, Page::new("another ipsum page, with other anomalies\n"));
            }
            url
        } else {
            root.to_string()
        }
    }
    fn serve_base(&self, server: &Server, root: &str) {
        let pages: Vec<(String, Page)> = self
            .base
            .files()
            .into_iter()
            .map(|(_, name, data)| {
                let mut p = Page::new(data);
                p.gzip = name.ends_with(".gz");
                p.chunked = self.chunked;
                (name, p)
            })
            .collect();
        web::serve_tree(server, root, &pages, self.style);
    }
    /// The files as they are expected to be read.
    fn seen(&self, all_good: bool) -> Vec<FileSpec> {
        let mut files = self.files.clone();
        for (i, f) in files.iter_mut().enumerate() {
            let empty = f.on_disk(self.base.n).is_empty();
            match self.bad(i) {
                Some(Bad::Truncate(_)) if empty => {}
                Some(_) if !all_good => f.fault = Fault::Unreadable,
                _ => {}
            }
        }
        files
    }

    /// Compare a report with the files; `partial`: truncated files may be analysed up to the failure.
    fn check(&self, report: &Report, all_good: bool, order: &[String], info: &mut Info) -> Check {
        let files = self.seen(all_good);
        let Some(mut want) = expected(&self.base, &files, order, true) else {
            info.label("undecided");
            return Ok(());
        };
        let mut got = view(report)?;
        info.nontrivial_if(want.anomalies > 0);
        info.label_if(!want.read_errors.is_empty(), "read errors");
        if !all_good {
            let Some(complete) = expected(&self.base, &self.seen(true), order, true) else { return Ok(()) };
            let mut partial = false;
            for f in &files {
                let name = f.name();
                if !self.truncated(&name) || !want.read_errors.contains(&name) {
                    continue;
                }
                partial = true;
                if let Some((found, ..)) = got.logs.remove(&name) {
                    let all = complete.logs.get(&name).map(|l| l.0.clone()).unwrap_or_default();
                    for (i, f) in found.iter().enumerate() {
                        let ok = all.get(i).is_some_and(|a| a.line == f.line && a.pos == f.pos && a.before == f.before && a.after.starts_with(&f.after));
                        ensure!(ok, "{}: anomaly {} of a truncated file is {}", name, i, short(f));
                    }
                    want.anomalies += found.len();
                }
            }
            if partial {
                info.label("truncated");
                want.lines = got.lines;
            }
        }
        same_view(&want, &got)
    }
}

fn roots(c: &Remote) -> (String, String) {
    (format!("{}{}", web::fresh_prefix("good"), c.prefix), format!("{}{}", web::fresh_prefix("bad"), c.prefix))
}

fn names(order: &[logreduce_model::Source]) -> Vec<String> {
    order.iter().map(rel).collect()
}

fn target_names(c: &Remote, sources: &[logreduce_model::Source]) -> Result<Vec<String>, String> {
    if c.single {
        return Ok(vec![c.files[0].name()]);
    }
    let order = names(sources);
    let want: BTreeSet<String> = c.files.iter().map(|f| f.name()).collect();
    ensure!(order.iter().cloned().collect::<BTreeSet<_>>() == want && order.len() == want.len(), "the sources are {:?} instead of {:?}", order, want);
    Ok(order)
}

/// Rename the source of a single remote file, which is displayed in full.
fn shorten(report: &mut Report, c: &Remote, url: &Url) -> Check {
    if !c.single {
        return Ok(());
    }
    let n = url.as_str().len() - c.suffix.len() - c.files[0].name().len();
    let bare = Url::parse(&url.as_str()[..url.as_str().len() - c.suffix.len()]).unwrap();
    for l in report.log_reports.iter_mut() {
        if let logreduce_model::Source::Remote(p, u) = &mut l.source {
            *p = n;
            ensure!(u == url, "the source of an anomaly is {} instead of {}", u, url);
            *u = bare.clone();
        }
    }
    for e in report.read_errors.iter_mut() {
        if let logreduce_model::Source::Remote(p, u) = &mut e.0 {
            *p = n;
            *u = bare.clone();
        }
    }
    for e in report.index_errors.iter_mut().flatten() {
        if let logreduce_model::Source::Remote(p, u) = e {
            *p = n;
            *u = bare.clone();
        }
    }
    Ok(())
}

fn check_plain(c: &Remote, server: &Server, scratch: &Path, info: &mut Info) -> Check {
    let mut c = c.clone();
    c.simplify();
    server.clear();
    let dir = case_dir(scratch);
    let (good, bad) = roots(&c);
    let target = server.url(&c.serve(server, &bad));
    let baseline = if c.remote_base {
        c.serve_base(server, &good);
        Content::from_url(server.url(&good)).map_err(|e| e.to_string())?
    } else {
        c.base.write(&dir.path().join("good"));
        Content::from_path(&dir.path().join("good")).map_err(|e| e.to_string())?
    };
    let content = Content::from_url(target.clone()).map_err(|e| e.to_string())?;
    let order = target_names(&c, &content.get_sources().map_err(|e| format!("no sources: {:?}", e))?)?;
    let model = Model::train(OutputMode::Quiet, vec![baseline], hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
    let mut report = model.report(OutputMode::Quiet, content).map_err(|e| format!("no report: {:?}", e))?;
    shorten(&mut report, &c, &target)?;
    c.check(&report, false, &order, info)
}

fn check_cached(c: &Remote, server: &Server, scratch: &Path, info: &mut Info) -> Check {
    let mut c = c.clone();
    c.simplify();
    server.clear();
    let dir = case_dir(scratch);
    let d = dir.path();
    let (good, bad) = roots(&c);
    let path = c.serve(server, &bad);
    let target = server.url(&path);
    let baseline: OsString = if c.remote_base {
        c.serve_base(server, &good);
        server.url(&good).to_string().into()
    } else {
        c.base.write(&d.join("good"));
        d.join("good").into()
    };
    let args: Vec<OsString> = vec!["--report".into(), d.join("out.html").into(), "diff".into(), baseline, target.to_string().into()];
    let run = || -> Result<Report, String> {
        let _ = std::fs::remove_file(d.join("out.json"));
        let out = logreduce_env(d, &args, false, &[("LOGREDUCE_CACHE", "1")]);
        ensure!(!out.crashed(), "the program crashes: {}", short(&out.stderr));
        ensure!(out.code == Some(0), "exit status {:?}: {}", out.code, short(&out.stderr));
        let mut report = Report::load(&d.join("out.json")).map_err(|e| format!("no report: {:?}", e))?;
        shorten(&mut report, &c, &target)?;
        Ok(report)
    };
    if !c.single && c.bad.iter().flatten().count() > 2 {
        // the first listing fails: that is an error, and it is not remembered
        server.fail(&bad, server::Fault::Status(503));
        ensure!(run().is_err(), "a listing that fails gives a report");
        server.fail(&bad, server::Fault::No);
        info.label("failed listing");
    }
    // the order of the sources is the one of the listing, kept in the cache: what a report depends on is computed for each
    let first = run().map_err(|e| format!("first run: {}", e))?;
    let order_of = |r: &Report| -> Vec<String> { order_in(&c, r) };
    c.check(&first, false, &order_of(&first), info).map_err(|e| format!("first run: {}", e))?;
    let all_good = match c.cached {
        After::Gone => {
            server.clear();
            // what could not be read is still refused
            for (i, f) in c.files.iter().enumerate() {
                if c.bad(i).is_some() {
                    c2(server, &bad, f)
                }
            }
            false
        }
        After::Repaired => {
            let mut fine = c.clone();
            fine.bad.clear();
            server.clear();
            fine.serve(server, &bad);
            true
        }
        After::Same => false,
    };
    info.label(match c.cached {
        After::Gone => "server gone",
        After::Repaired => "repaired",
        After::Same => "same",
    });
    let second = run().map_err(|e| format!("second run: {}", e))?;
    c.check(&second, all_good, &order_of(&second), info).map_err(|e| format!("second run: {}", e))
}

fn c2(server: &Server, root: &str, f: &FileSpec) {
    let mut p = Page::new("gone");
    p.fault = server::Fault::Status(404);
    server.set(&format!("{}{}", root, f.name()), p);
}

/// With at most one readable file per kind, the order does not matter.
fn order_in(c: &Remote, _r: &Report) -> Vec<String> {
    c.files.iter().map(|f| f.name()).collect()
}

fn c26(r: &mut Runner) {
    let server = Server::start();
    let scratch = r.scratch.clone();
    r.sub(
        "plain",
        "targets of 1-7 files of eight kinds (rotated, compressed, not UTF-8) or a single file, served over http in five styles of index pages, some refused, dropped or truncated, against baselines that are local or remote; the report is compared with the one computed for the same files; non-trivial: an anomaly",
        r.cases(5_000, 50_000),
        remote,
        |c, info| check_plain(c, &server, &scratch, info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "cached",
        "the program is run twice with the cache enabled and its own cache directory; before the second run the server is gone, repaired or unchanged; the second report is the one for what was read, and what had failed is fetched again; non-trivial: an anomaly",
        r.cases(1_800, 15_000),
        || {
            remote().prop_map(|mut c| {
                // one file per kind: a line is reported once per group, in the order of the listing
                let mut kinds = BTreeSet::new();
                c.files.retain(|f| kinds.insert(f.kind()));
                if let After::Gone = c.cached {
                    // what is not read to its end is not kept
                    c.files.iter_mut().for_each(|f| f.fault = Fault::No);
                }
                c
            })
        },
        |c, info| check_cached(c, &server, &scratch, info),
    );
    let scratch = r.scratch.clone();
    r.sub(
        "crowd",
        "the program is run twice, with the cache enabled, on up to 1500 remote files of one to twenty directories, each with known lines and lines of its own; before the second run the server is gone, or not; both reports have exactly the own lines of each file; non-trivial: more than a hundred files",
        r.cases(40, 600),
        || (prop_oneof![1u16..60, 900u16..1500], 1u8..21, 0u8..5, any::<bool>(), any::<bool>()).prop_map(|(n, dirs, style, chunked, gone)| Crowd { n, dirs, style, chunked, gone }),
        |c, info| check_crowd(c, &server, &scratch, info),
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    n: u16,
    dirs: u8,
    style: u8,
    chunked: bool,
    gone: bool,
}

fn check_crowd(c: &Crowd, server: &Server, scratch: &Path, info: &mut Info) -> Check {
    use crate::proc::wide_line;
    server.clear();
    let dir = case_dir(scratch);
    let d = dir.path();
    info.nontrivial_if(c.n > 100);
    let base: String = (0..50).map(|k| wide_line(k, false, k) + "\n").collect();
    write_file(&d.join("good"), "dir/app.log", base.as_bytes());
    write_file(&d.join("good"), "other.txt", base.as_bytes());
    let mut want: BTreeMap<String, Vec<(usize, String)>> = BTreeMap::new();
    let mut pages = vec![];
    for i in 0..c.n as u32 {
        let own = wide_line(i, true, i);
        let text = format!("{}\n{}\n{}\n", wide_line(i % 50, false, i), own, wide_line(i % 49 + 1, false, i * 3));
        let name = format!("dir{}/app.log.{}", i % c.dirs.max(1) as u32, i);
        pages.push((name.clone(), Page { chunked: c.chunked, ..Page::new(text) }));
        want.insert(name, vec![(2, own)]);
    }
    let root = web::fresh_prefix("crowd");
    web::serve_tree(server, &root, &pages, c.style);
    let args: Vec<OsString> = vec!["--report".into(), d.join("out.html").into(), "diff".into(), d.join("good").into(), server.url(&root).to_string().into()];
    for run in ["first run", "second run"] {
        let _ = std::fs::remove_file(d.join("out.json"));
        let out = logreduce_env(d, &args, false, &[("LOGREDUCE_CACHE", "1")]);
        ensure!(!out.crashed() && out.code == Some(0), "{}: exit status {:?}: {}", run, out.code, short(&out.stderr));
        let report = Report::load(&d.join("out.json")).map_err(|e| format!("{}: no report: {:?}", run, e))?;
        ensure!(report.read_errors.is_empty(), "{}: {} can't be read: {}", run, report.read_errors[0].0, report.read_errors[0].1);
        let mut got: BTreeMap<String, Vec<(usize, String)>> = BTreeMap::new();
        for l in &report.log_reports {
            got.entry(rel(&l.source)).or_default().extend(l.anomalies.iter().map(|a| (a.anomaly.pos, a.anomaly.line.clone())));
        }
        for (name, anomalies) in &want {
            ensure!(got.get(name) == Some(anomalies), "{}: {}: the anomalies are {} instead of {}", run, name, short(got.get(name)), short(anomalies));
        }
        ensure!(got.len() == want.len() && report.log_reports.len() == want.len(), "{}: {} files are reported instead of {}", run, report.log_reports.len(), want.len());
        ensure!(report.total_line_count == want.len() * 3 && report.total_anomaly_count == want.len(), "{}: the totals are {} lines and {} anomalies", run, report.total_line_count, report.total_anomaly_count);
        if c.gone {
            server.clear();
        }
    }
    Ok(())
}
