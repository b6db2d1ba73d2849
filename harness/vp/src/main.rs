//! vp run ID | vp replay FILE [ID] | internal: vp shard
mod alloc;
mod cache;
mod cli;
mod engine;
mod files;
mod gen;
mod http;
mod index;
mod input;
mod iter;
mod logs;
mod proc;
mod py;
mod report;
mod server;
mod store;
mod tok;
mod trees;
mod web;
mod zuul;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use engine::*;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

type PropFn = fn(&mut Runner);

pub struct Prop {
    id: &'static str,
    level: &'static str,
    run: PropFn,
    assumptions: &'static [&'static str],
}

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(iter::props());
    v.extend(tok::props());
    v.extend(index::props());
    v.extend(proc::props());
    v.extend(store::props());
    v.extend(files::props());
    v.extend(report::props());
    v.extend(cli::props());
    v.extend(cache::props());
    v.extend(http::props());
    v.extend(zuul::props());
    v.extend(input::props());
    v.extend(py::props());
    v
}

pub fn prop(id: &'static str, level: &'static str, run: PropFn, assumptions: &'static [&'static str]) -> Prop {
    Prop { id, level, run, assumptions }
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn make_runner(id: &str, mode: Mode, shard: u32, scratch: PathBuf) -> Runner {
    let corpus = match mode {
        Mode::Replay(..) => vec![],
        _ => load_corpus(&verif_dir().join("corpus").join(id)),
    };
    Runner {
        id: id.into(),
        tier: tier(),
        seed: seed(),
        mode,
        shard,
        stop_file: PathBuf::from(std::env::var_os("VP_SCRATCH").expect("VP_SCRATCH")).join("stop"),
        scratch,
        only: std::env::var("VP_ONLY").ok(),
        corpus,
        stats: vec![],
        failure: None,
        replayed: false,
        current: None,
    }
}

fn current_file(scratch: &Path, shard: u32) -> PathBuf {
    scratch.join(format!("current-{}", shard))
}

fn load_corpus(dir: &Path) -> Vec<(String, serde_json::Value)> {
    let Ok(rd) = std::fs::read_dir(dir) else { return vec![] };
    let mut files: Vec<_> = rd.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect();
    files.sort();
    files
        .iter()
        .map(|f| {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(f).unwrap()).expect("corpus file");
            (j["sub"].as_str().expect("sub").to_string(), j["value"].clone())
        })
        .collect()
}

fn get_prop(id: &str) -> Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("ERROR unknown property {}", id);
            std::process::exit(2)
        }
    }
}

#[derive(serde::Serialize, serde::Deserialize)]
struct ShardResult {
    stats: Vec<SubStats>,
    failure: Option<Failure>,
}

/// Run one shard of a property in this process.
fn shard_main(id: &str, mode: Mode, shard: u32, scratch: PathBuf) -> i32 {
    install_panic_hook();
    let p = get_prop(id);
    let mut r = make_runner(id, mode, shard, scratch.clone());
    if let Mode::Run = r.mode {
        r.current = Current::create(&current_file(&PathBuf::from(std::env::var_os("VP_SCRATCH").unwrap()), shard));
    }
    (p.run)(&mut r);
    let _ = std::fs::remove_dir_all(&scratch);
    match &r.mode {
        Mode::Replay(sub, _) => {
            if !r.replayed {
                eprintln!("ERROR no sub-check {} in {}", sub, id);
                return 2;
            }
            match &r.failure {
                Some(f) => {
                    println!("FAIL {}/{}: {}", id, f.sub, f.message);
                    1
                }
                None => {
                    println!("PASS {}/{}", id, sub);
                    0
                }
            }
        }
        Mode::Run => {
            let out = ShardResult { stats: r.stats, failure: r.failure };
            let base = PathBuf::from(std::env::var_os("VP_SCRATCH").unwrap());
            std::fs::write(base.join(format!("result-{}.json", shard)), serde_json::to_vec(&out).unwrap()).expect("result");
            0
        }
    }
}

fn report_violation(id: &str, sub: &str, message: &str, value: &serde_json::Value) {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", id, sub.replace(|c: char| !c.is_ascii_alphanumeric(), "-")));
    let j = json!({"property": id, "sub": sub, "message": message, "value": value});
    if let Err(e) = std::fs::write(&path, serde_json::to_vec_pretty(&j).unwrap()) {
        eprintln!("ERROR can't write {}: {}", path.display(), e);
    }
    println!("{}/{}: {}", id, sub, message.chars().take(1500).collect::<String>());
    println!("input: {}", short(value.to_string()));
    println!("VIOLATION property={} replay={}", id, path.display());
}

fn write_evidence(p: &Prop, stats: &[SubStats], failure: bool, wall_s: f64) {
    let evaluations: u64 = stats.iter().map(|s| s.evaluations).sum();
    let nontrivial: usize = stats.iter().map(|s| s.nontrivial.len()).sum();
    let rule = stats.iter().map(|s| format!("[{}] {}", s.name, s.rule)).collect::<Vec<_>>().join("\n");
    let samples: Vec<_> = stats.iter().flat_map(|s| s.samples.iter().take(3).map(|v| json!({"sub": s.name, "case": v}))).collect();
    let subs: Vec<_> = stats
        .iter()
        .map(|s| {
            json!({"name": s.name, "rule": s.rule, "evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial.len(),
                   "classes": s.labels, "wall_s": (s.wall_s * 100.0).round() / 100.0, "corpus_replayed": s.corpus})
        })
        .collect();
    let ev = json!({
        "property": p.id,
        "tier": if tier() == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed(),
        "level": p.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": rule,
            "samples": samples,
            "sub_checks": subs,
        },
        "assumptions": p.assumptions,
        "wall_s": wall_s,
        "violations": u32::from(failure),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("ERROR can't write the evidence: {}", e);
        std::process::exit(2);
    }
}

/// A child running this program in its own process group, with the environment of a check.
fn command(args: &[&str], scratch: &Path, quiet: bool) -> Command {
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(args)
        .env("XDG_CACHE_HOME", scratch.join("xdg"))
        .env("VP_SCRATCH", scratch)
        .env("NO_PROXY", "*")
        .env("TZ", "UTC")
        .env_remove("LOGREDUCE_CACHE")
        .env_remove("LOGREDUCE_LOG")
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null());
    for v in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] {
        cmd.env_remove(v);
    }
    if quiet {
        cmd.stdout(Stdio::null()).stderr(Stdio::null());
    }
    unsafe {
        use std::os::unix::process::CommandExt;
        cmd.pre_exec(|| {
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            let rl = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
            libc::setrlimit(libc::RLIMIT_STACK, &rl);
            let rl = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_DATA, &rl);
            Ok(())
        });
    }
    cmd
}

/// Wait for the children; `stalled` is asked now and then for one that makes no progress.
fn wait_all(mut children: Vec<std::process::Child>, deadline: Instant, mut stalled: impl FnMut(&[Option<ExitStatus>]) -> bool) -> Vec<Option<ExitStatus>> {
    let mut out: Vec<Option<ExitStatus>> = children.iter().map(|_| None).collect();
    let mut asked = Instant::now();
    loop {
        for (i, c) in children.iter_mut().enumerate() {
            if out[i].is_none() {
                if let Some(st) = c.try_wait().unwrap() {
                    unsafe { libc::kill(-(c.id() as i32), libc::SIGKILL) };
                    out[i] = Some(st);
                }
            }
        }
        if out.iter().all(|o| o.is_some()) {
            return out;
        }
        let stop = asked.elapsed() > Duration::from_secs(1) && {
            asked = Instant::now();
            stalled(&out)
        };
        if stop || Instant::now() > deadline {
            for (i, c) in children.iter_mut().enumerate() {
                if out[i].is_none() {
                    unsafe { libc::kill(-(c.id() as i32), libc::SIGKILL) };
                    let _ = c.wait();
                }
            }
            return out;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn spawn(args: &[&str], scratch: &Path, timeout: Duration, quiet: bool) -> Option<ExitStatus> {
    let child = command(args, scratch, quiet).spawn().expect("spawn");
    wait_all(vec![child], Instant::now() + timeout, |_| false)[0]
}

fn run(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let p = get_prop(id);
    let _ = std::fs::remove_file(verif_dir().join("evidence").join(format!("{}.json", id)));
    let scratch = CaseScratch::new();
    let limit = std::env::var("VP_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier() {
        Tier::Quick => 600,
        Tier::Thorough => 7200,
    });
    let started = Instant::now();
    let deadline = started + Duration::from_secs(limit);
    let children = (0..SHARDS).map(|k| command(&["shard", id, &k.to_string()], &scratch.0, false).spawn().expect("spawn")).collect();
    // A case that runs for so long does not terminate.
    let stall_limit = Duration::from_secs(if tier() == Tier::Quick { 150 } else { 600 });
    let mut progress = vec![(0u64, Instant::now()); SHARDS as usize];
    let mut hung = None;
    let statuses = wait_all(children, deadline, |done| {
        for k in (0..SHARDS as usize).filter(|k| done[*k].is_none()) {
            let n = Current::count(&current_file(&scratch.0, k as u32));
            if progress[k].0 != n {
                progress[k] = (n, Instant::now());
            } else if n > 0 && progress[k].1.elapsed() > stall_limit {
                hung = Some(k);
            }
        }
        hung.is_some()
    });
    let mut stats: Vec<SubStats> = vec![];
    let mut failure: Option<Failure> = None;
    let mut error = false;
    let mut crashed = None;
    for (k, st) in statuses.iter().enumerate() {
        match st {
            None if hung == Some(k) => {
                crashed.get_or_insert(k);
            }
            None if hung.is_some() => {}
            None => {
                eprintln!("ERROR {}: shard {} not finished after {} s (inconclusive)", id, k, limit);
                error = true;
            }
            Some(st) if st.success() => {
                let bytes = std::fs::read(scratch.0.join(format!("result-{}.json", k))).expect("shard result");
                let res: ShardResult = serde_json::from_slice(&bytes).expect("shard result");
                for s in res.stats {
                    match stats.iter_mut().find(|x| x.name == s.name) {
                        Some(x) => x.merge(s),
                        None => stats.push(s),
                    }
                }
                if failure.is_none() {
                    failure = res.failure;
                }
            }
            Some(st) => match st.signal() {
                // An abort (e.g. stack overflow) or a memory fault is caused by one of the inputs.
                Some(sig) if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) => {
                    eprintln!("{}: the checked code killed shard {} (signal {})", id, k, sig);
                    crashed.get_or_insert(k);
                }
                _ => {
                    eprintln!("ERROR {}: shard {} ended with {}", id, k, st);
                    error = true;
                }
            },
        }
    }
    if let (Some(k), None) = (crashed, &failure) {
        if let Some(j) = Current::read(&current_file(&scratch.0, k as u32)) {
            let f = Failure {
                sub: j["sub"].as_str().unwrap_or("").to_string(),
                message: match statuses[k] {
                    Some(st) => format!("the process is killed ({}) on this input", st),
                    None => format!("no end after {} s on this input", stall_limit.as_secs()),
                },
                value: j["value"].clone(),
            };
            stats.push(SubStats {
                name: format!("{} (crash)", f.sub),
                rule: "the case that kills the process".into(),
                evaluations: 1,
                samples: vec![json!(short(j["value"].to_string()))],
                ..Default::default()
            });
            failure = Some(f);
        }
        if failure.is_none() {
            eprintln!("ERROR {}: could not find the input that kills the process", id);
            error = true;
        }
    }
    for s in &stats {
        eprintln!("{}/{}: {} cases, {} distinct non-trivial, {:.1}s {:?}", id, s.name, s.evaluations, s.nontrivial.len(), s.wall_s, s.labels);
    }
    match failure {
        Some(f) => {
            write_evidence(&p, &stats, true, started.elapsed().as_secs_f64());
            report_violation(id, &f.sub, &f.message, &f.value);
            1
        }
        None if error => 2,
        None => {
            write_evidence(&p, &stats, false, started.elapsed().as_secs_f64());
            0
        }
    }
}

struct CaseScratch(PathBuf);

impl CaseScratch {
    fn new() -> CaseScratch {
        let p = std::env::temp_dir().join(format!("vp-{}-{}", std::process::id(), seed()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        CaseScratch(p)
    }
}

impl Drop for CaseScratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn worker_scratch() -> PathBuf {
    let base = PathBuf::from(std::env::var_os("VP_SCRATCH").expect("VP_SCRATCH"));
    let p = base.join(format!("w{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    p
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match args[1..] {
        ["run", id] => run(id),
        ["list"] => {
            for p in props() {
                println!("{} {}", p.id, p.level);
            }
            0
        }
        ["tokens"] => {
            tok::serve_tokens();
            0
        }
        ["shard", id, k] => shard_main(id, Mode::Run, k.parse().unwrap(), worker_scratch()),
        // the user's form runs the case in a child
        ["replay", file] => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay json");
            let id = j["property"].as_str().expect("property").to_string();
            let scratch = CaseScratch::new();
            match spawn(&["replay", file, &id], &scratch.0, Duration::from_secs(300), false) {
                Some(st) => st.code().unwrap_or_else(|| {
                    println!("FAIL {}: {}", id, st);
                    1
                }),
                None => 2,
            }
        }
        ["replay", file, id] => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay json");
            let sub = j["sub"].as_str().expect("sub").to_string();
            shard_main(id, Mode::Replay(sub, j["value"].clone()), 0, worker_scratch())
        }
        _ => {
            eprintln!("usage: vp run ID | vp replay FILE | vp list");
            2
        }
    };
    std::process::exit(code)
}
