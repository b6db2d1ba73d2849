//! C13-C14: saved models and reports.
use crate::engine::*;
use crate::trees::*;
use crate::{ensure, prop, Prop};
use logreduce_model::{hashing_index, Content, Model, OutputMode, Report};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C13", "exploration", c13, &["models are compared through their serde representation and the reports they produce"]),
        prop("C14", "fault-injection", c14, &["a file size limit (RLIMIT_FSIZE) and /dev/full stand for a full device"]),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    base: Base,
    files: Vec<FileSpec>,
}

fn case() -> impl Strategy<Value = Case> {
    (base(), files(6, true)).prop_map(|(base, mut files)| {
        for f in files.iter_mut().filter(|f| f.fault == Fault::Unreadable) {
            f.fault = Fault::No
        }
        Case { base, files }
    })
}

struct Made {
    model: Model,
    report: Report,
    target: Content,
}

fn make(c: &Case, dir: &Path) -> Result<Made, String> {
    let (good, bad) = (dir.join("good"), dir.join("bad"));
    c.base.write(&good);
    write_tree(&bad, &c.files, c.base.n);
    let target = Content::from_path(&bad).map_err(|e| e.to_string())?;
    let baseline = Content::from_path(&good).map_err(|e| e.to_string())?;
    let model = Model::train(OutputMode::Quiet, vec![baseline], hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
    let report = model.report(OutputMode::Quiet, target.clone()).map_err(|e| format!("no report: {:?}", e))?;
    Ok(Made { model, report, target })
}

fn json<T: Serialize>(t: &T) -> serde_json::Value {
    serde_json::to_value(t).expect("json")
}

/// Everything a user can read in a report, whatever its serialized form.
pub fn fields(r: &Report) -> String {
    let indexes: std::collections::BTreeMap<_, _> = r.index_reports.iter().map(|(k, v)| (k.0.clone(), v)).collect();
    format!(
        "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {}",
        r.created_at, r.run_time, r.target, r.baselines, r.log_reports, indexes, r.index_errors, r.read_errors, r.total_line_count, r.total_anomaly_count
    )
}

/// The same without the times, for reports of two runs.
fn timeless(r: &Report) -> String {
    let indexes: std::collections::BTreeMap<_, _> = r.index_reports.iter().map(|(k, v)| (k.0.clone(), (v.train_time, &v.sources))).collect();
    format!("{:?} {:?} {:?}", r.target, r.baselines, indexes)
}

/// Where to damage a file.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    Cut(u32),
    CutEnd(u8),
    Flip(u32, u8),
    Extend(Vec<u8>),
}

fn damage() -> impl Strategy<Value = Damage> {
    prop_oneof![4 => any::<u32>().prop_map(Damage::Cut), 3 => (1u8..40).prop_map(Damage::CutEnd), 3 => (any::<u32>(), 0u8..8).prop_map(|(a, b)| Damage::Flip(a, b))]
}

fn apply(d: &Damage, data: &[u8]) -> Vec<u8> {
    let mut v = data.to_vec();
    match d {
        Damage::Cut(n) => v.truncate(*n as usize % data.len()),
        Damage::CutEnd(n) => v.truncate(data.len().saturating_sub(*n as usize)),
        Damage::Flip(n, b) => v[*n as usize % data.len()] ^= 1 << b,
        Damage::Extend(e) => v.extend(e),
    }
    v
}

fn reload(c: &Case, damages: &[Damage], dir: &Path, info: &mut Info) -> Check {
    let m = make(c, dir)?;
    info.nontrivial_if(!m.report.log_reports.is_empty());
    info.label_if(c.base.kinds.len() > 1, "several indexes");
    let (mp, rp) = (dir.join("model"), dir.join("report"));
    m.model.save(&mp).map_err(|e| format!("the model is not saved: {:?}", e))?;
    m.report.save(&rp).map_err(|e| format!("the report is not saved: {:?}", e))?;
    let (jm, jr) = (json(&m.model), json(&m.report));
    let model = Model::load(&mp).map_err(|e| format!("the model is not loaded: {:?}", e))?;
    let report = Report::load(&rp).map_err(|e| format!("the report is not loaded: {:?}", e))?;
    let fr = fields(&m.report);
    ensure!(fields(&report) == fr, "the report is not the same after a reload: {} instead of {}", short(&fields(&report)), short(&fr));
    ensure!(json(&report) == jr, "the report is not the same after a reload");
    ensure!(json(&model) == jm, "the model is not the same after a reload");
    let again = model.report(OutputMode::Quiet, m.target.clone()).map_err(|e| format!("no report from the loaded model: {:?}", e))?;
    same_view(&view(&m.report)?, &view(&again)?).map_err(|e| format!("the loaded model gives another report: {}", e))?;
    ensure!(timeless(&m.report) == timeless(&again), "the loaded model gives another report: {} instead of {}", timeless(&again), timeless(&m.report));
    let (bm, br) = (std::fs::read(&mp).unwrap(), std::fs::read(&rp).unwrap());
    for d in damages {
        std::fs::write(&mp, apply(d, &bm)).unwrap();
        std::fs::write(&rp, apply(d, &br)).unwrap();
        match Model::load(&mp) {
            Ok(x) => ensure!(json(&x) == jm, "another model is loaded from a damaged file ({:?})", d),
            Err(_) => info.label("refused"),
        }
        match Report::load(&rp) {
            Ok(x) => ensure!(fields(&x) == fr, "another report is loaded from a damaged file ({:?})", d),
            Err(_) => info.label("refused"),
        }
    }
    Ok(())
}

fn c13(r: &mut Runner) {
    let scratch = r.scratch.clone();
    r.sub(
        "reload",
        "models trained on generated trees (1-5 indexes, 1-60 lines each) and the reports of generated targets; after saving and loading both must be identical, and the loaded model must give the same report; then the files are cut or altered at generated places: loading must fail or give the identical content; non-trivial: a model with an anomaly in the report",
        r.cases(6_000, 30_000),
        || (case(), proptest::collection::vec(damage(), 1..24)),
        |(c, damages), info| {
            let dir = case_dir(&scratch);
            reload(c, damages, dir.path(), info)
        },
    );
    r.sub(
        "large",
        "as reload, with baselines of 1000-6000 lines per file; non-trivial: a model with an anomaly in the report",
        r.cases(240, 1_000),
        || {
            (case(), 1000u32..6000, proptest::collection::vec(damage(), 1..4)).prop_map(|(mut c, n, damages)| {
                c.base.n = n;
                c.base.kinds = c.base.kinds.into_iter().take(2).collect();
                (c, damages)
            })
        },
        |(c, damages), info| {
            let dir = case_dir(&scratch);
            reload(c, damages, dir.path(), info)
        },
    );
    r.sub(
        "cuts",
        "the smallest models and reports, cut at every byte; non-trivial: all of them",
        r.cases(200, 800),
        || (1u32..8, 0u32..4),
        |(n, u), info| {
            info.nontrivial();
            let dir = case_dir(&scratch);
            let c = Case {
                base: Base { kinds: [0u8].into(), n: *n, split: 1, gz: false, parts: 1, damage: None },
                files: vec![FileSpec { kind: 0, variant: 0, runs: vec![crate::logs::Run::New { u: *u, n: 1 }], fault: Fault::No, members: 1 }],
            };
            let m = make(&c, dir.path())?;
            let (mp, rp) = (dir.path().join("model"), dir.path().join("report"));
            m.model.save(&mp).map_err(|e| format!("the model is not saved: {:?}", e))?;
            m.report.save(&rp).map_err(|e| format!("the report is not saved: {:?}", e))?;
            let (jm, jr) = (json(&m.model), fields(&m.report));
            let (bm, br) = (std::fs::read(&mp).unwrap(), std::fs::read(&rp).unwrap());
            for i in 0..bm.len() {
                std::fs::write(&mp, &bm[..i]).unwrap();
                if let Ok(x) = Model::load(&mp) {
                    ensure!(json(&x) == jm, "another model is loaded from the first {} bytes of {}", i, bm.len());
                }
            }
            for i in 0..br.len() {
                std::fs::write(&rp, &br[..i]).unwrap();
                if let Ok(x) = Report::load(&rp) {
                    ensure!(fields(&x) == jr, "another report is loaded from the first {} bytes of {}", i, br.len());
                }
            }
            Ok(())
        },
    );
    r.sub(
        "foreign",
        "files that are not models nor reports: bytes, text, empty files, compressed bytes, compressed integers of extreme values, a directory, nothing; loading must give an error; non-trivial: a non-empty file",
        r.cases(30_000, 200_000),
        || {
            let word = prop_oneof![3 => Just(0u64), 2 => 0u64..5, 1 => Just(u64::MAX), 1 => any::<u64>(), 1 => Just(1u64 << 62), 1 => Just(1u64 << 40)];
            prop_oneof![
                1 => proptest::collection::vec(any::<u8>(), 0..200).prop_map(|v| (false, v)),
                1 => "[ -~\n]{0,200}".prop_map(|v| (false, v.into_bytes())),
                2 => proptest::collection::vec(any::<u8>(), 0..200).prop_map(|v| (true, v)),
                3 => proptest::collection::vec(word, 0..20).prop_map(|v| (true, v.into_iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<u8>>())),
                // the shape of the first fields, then extreme lengths
                3 => (0u64..1 << 33, 0u32..1_000_000_000, proptest::collection::vec(prop_oneof![0u32..3, Just(u32::MAX)], 0..6), proptest::collection::vec(any::<u64>(), 1..4)).prop_map(|(s, n, tags, rest)| {
                    let mut v = s.to_le_bytes().to_vec();
                    v.extend(n.to_le_bytes());
                    for t in tags { v.extend(t.to_le_bytes()); }
                    for t in rest { v.extend(t.to_le_bytes()); }
                    (true, v)
                }),
            ]
        },
        |(gz, data), info| {
            info.nontrivial_if(!data.is_empty());
            info.label_if(*gz, "compressed");
            let dir = case_dir(&scratch);
            let p = dir.path().join("f");
            std::fs::write(&p, if *gz { gzip(data, 1) } else { data.clone() }).unwrap();
            // Zeros happen to be an empty model or report: what is loaded can not be more than the data.
            let is_data = |x: Vec<u8>| *gz && data.len() >= x.len();
            if let Ok(m) = Model::load(&p) {
                ensure!(is_data(bincode::serialize(&m).unwrap()), "a model is loaded from foreign data: {:?}", json(&m));
            }
            if let Ok(r) = Report::load(&p) {
                ensure!(is_data(bincode::serialize(&r).unwrap()), "a report is loaded from foreign data: {:?}", json(&r));
            }
            ensure!(Model::load(dir.path()).is_err() && Report::load(dir.path()).is_err(), "a directory is loaded");
            let none = dir.path().join("none");
            ensure!(Model::load(&none).is_err() && Report::load(&none).is_err(), "a missing file is loaded");
            Ok(())
        },
    );
}

pub fn with_file_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let rl = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &rl);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        match res {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

fn check_save<T: Serialize>(what: &str, len: usize, limits: &[usize], path: &Path, reference: &T, save: impl Fn() -> anyhow::Result<()>, load: impl Fn() -> anyhow::Result<T>, info: &mut Info) -> Check {
    let want = json(reference);
    for n in limits {
        let _ = std::fs::remove_file(path);
        match with_file_limit(*n as u64, &save) {
            Ok(()) => {
                let size = std::fs::metadata(path).map(|m| m.len()).unwrap_or(0);
                let loaded = load().map_err(|e| format!("saving the {} ({} bytes) with room for {} bytes is a success, {} are written and it can't be loaded: {:?}", what, len, n, size, e))?;
                ensure!(json(&loaded) == want, "saving the {} with room for {} bytes is a success and another one is loaded", what, n);
                ensure!(size as usize >= len.min(*n) && *n >= len, "saving the {} ({} bytes) with room for {} bytes is a success", what, len, n);
                info.label("saved");
            }
            Err(_) => {
                ensure!(*n < len, "saving the {} ({} bytes) fails with room for {} bytes", what, len, n);
                info.label("refused");
            }
        }
    }
    Ok(())
}

fn c14(r: &mut Runner) {
    let scratch = r.scratch.clone();
    r.sub(
        "limit",
        "models and reports of generated trees are saved with room for n bytes, for generated n and for every n of the last 40 bytes, around multiples of 4096 and 32768 and beyond the end; success must mean a complete file that loads to the same content, and enough room must be a success; non-trivial: all, each with limits below and above the size",
        r.cases(2_400, 10_000),
        || (case(), proptest::collection::vec(any::<u32>(), 0..12)),
        |(c, limits), info| {
            info.nontrivial();
            let dir = case_dir(&scratch);
            let m = make(c, dir.path())?;
            for what in ["model", "report"] {
                let p = dir.path().join(what);
                let save = || if what == "model" { m.model.save(&p) } else { m.report.save(&p) };
                save().map_err(|e| format!("saving fails: {:?}", e))?;
                let len = std::fs::metadata(&p).unwrap().len() as usize;
                let mut ns: Vec<usize> = limits.iter().map(|n| *n as usize % (len + 10)).collect();
                ns.extend(len.saturating_sub(40)..len + 3);
                ns.extend([0, 1, 9, 10, 11]);
                for k in [4096, 8192, 32768] {
                    if k < len {
                        ns.extend([k - 1, k, k + 1]);
                    }
                }
                if what == "model" {
                    check_save(what, len, &ns, &p, &m.model, save, || Model::load(&p), info)?;
                } else {
                    check_save(what, len, &ns, &p, &m.report, save, || Report::load(&p), info)?;
                }
            }
            let full = Path::new("/dev/full");
            if full.exists() {
                info.label("/dev/full");
                ensure!(m.model.save(full).is_err(), "saving a model to a full device is a success");
                ensure!(m.report.save(full).is_err(), "saving a report to a full device is a success");
            }
            let missing = dir.path().join("missing/model");
            ensure!(m.model.save(&missing).is_err() && m.report.save(&missing).is_err(), "saving below a missing directory is a success");
            Ok(())
        },
    );
}
