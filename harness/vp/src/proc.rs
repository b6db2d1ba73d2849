//! C09-C12: the detector.
use crate::engine::*;
use crate::gen::*;
use crate::logs::*;
use crate::{ensure, prop, Prop};
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use logreduce_model::{hashing_index, AnomalyContext, ChunkIndex};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &["the words of the generated vocabulary do not collide in the hashed space", "cases with a distance within 1e-4 of the threshold are left out"];
    vec![
        prop("C09", "exploration", c09, A),
        prop("C10", "exploration", c10, A),
        prop("C11", "exploration", c11, A),
        prop("C12", "exploration", c12, A),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    base_n: u32,
    sources: u8,
    dups: bool,
    runs: Vec<Run>,
    json: bool,
    delivery: Delivery,
}

fn base_n() -> impl Strategy<Value = u32> {
    prop_oneof![1 => 0u32..3, 3 => 1u32..60, 1 => 505u32..520, 2 => 600u32..1300]
}

fn case(with_unknown: bool) -> impl Strategy<Value = Case> {
    (base_n(), 1u8..4, any::<bool>(), runs(with_unknown), prop_oneof![4 => Just(false), 1 => Just(true)], delivery())
        .prop_map(|(base_n, sources, dups, runs, json, delivery)| Case { base_n, sources, dups, runs, json, delivery })
}

fn train(sources: &[Vec<u8>], json: bool, delivery: &Delivery) -> Result<ChunkIndex, String> {
    let mut index = hashing_index::new();
    let mut trainer = ChunkTrainer::new(&mut index, json);
    let mut lines = 0;
    let mut bytes = 0;
    for s in sources {
        trainer.add(TestReader::new(s.clone(), delivery)).map_err(|e| format!("training fails: {}", e))?;
        for p in reference_split(s, json) {
            lines += 1;
            bytes += p.bytes.len();
        }
    }
    trainer.complete();
    ensure!((trainer.line_count, trainer.byte_count) == (lines, bytes), "training counted {:?} lines and bytes instead of {:?}", (trainer.line_count, trainer.byte_count), (lines, bytes));
    Ok(index)
}

struct Inspected {
    anomalies: Vec<AnomalyContext>,
    line_count: usize,
    byte_count: usize,
}

fn inspect(index: &ChunkIndex, data: &[u8], json: bool, delivery: &Delivery) -> Result<Inspected, String> {
    let mut skip = HashSet::new();
    let mut p = ChunkProcessor::new(TestReader::new(data.to_vec(), delivery), index, json, &mut skip);
    let mut anomalies = vec![];
    for a in p.by_ref() {
        anomalies.push(a.map_err(|e| format!("unexpected error: {}", e))?);
        ensure!(anomalies.len() <= data.len() + 1, "endless anomalies");
    }
    Ok(Inspected { anomalies, line_count: p.line_count, byte_count: p.byte_count })
}

fn known_only(c: &Case) -> (Vec<Vec<u8>>, Vec<u8>) {
    let base_n = c.base_n.max(1);
    (baseline_sources(base_n, c.sources, c.dups), render_runs(&c.runs, base_n))
}

fn c09(r: &mut Runner) {
    r.sub(
        "known",
        "baselines of 1-1300 known lines in 1-3 sources, targets of those lines in any order, repeated up to thousands of times, with other varying values, blank and over-long lines; no anomaly may be reported; non-trivial: at least 20 lines of which some are repeated or more than 512 are distinct",
        r.cases(4000, 120_000),
        || case(false),
        |c, info| {
            let (sources, data) = known_only(c);
            let index = train(&sources, c.json, &c.delivery)?;
            let got = inspect(&index, &data, c.json, &c.delivery)?;
            let n = reference_split(&data, c.json).len();
            info.nontrivial_if(n >= 20);
            info.label_if(n > 512, "more than a chunk");
            info.label_if(c.base_n > 512, "several baseline chunks");
            info.label_if(c.json, "json");
            ensure!(got.anomalies.is_empty(), "{} known lines are reported, e.g. {}", got.anomalies.len(), short(&got.anomalies[0].anomaly));
            Ok(())
        },
    );
    r.sub(
        "self",
        "any readable log (arbitrary text, escapes, JSON, unicode, blank and over-long lines) compared with itself, with its lines shuffled, or with a part of itself repeated; non-trivial: at least three distinct lines",
        r.cases(12_000, 400_000),
        || {
            (
                proptest::collection::vec(prop_oneof![3 => "[a-zA-Z0-9 :=/._-]{0,40}", 1 => "\\PC{0,30}", 1 => Just("{\"a\": [1, \"b,c\"], \"d\": \"e\\nf\"}".to_string()), 1 => "[a-z]{3,8}( [a-z]{3,9}){0,6}", 1 => Just("z".repeat(6001))], 1..40),
                any::<bool>(),
                any::<u64>(),
                delivery(),
            )
        },
        |(lines, json, salt, d), info| {
            let base = lines.join("\n").into_bytes();
            let index = train(&[base.clone()], *json, d)?;
            let mut other: Vec<String> = lines.iter().enumerate().flat_map(|(i, l)| vec![l.clone(); 1 + (mix(salt ^ i as u64) % 3) as usize]).collect();
            if !*json {
                // in JSON mode the order changes the state of the quotes
                let mut idx: Vec<usize> = (0..other.len()).collect();
                idx.sort_by_key(|i| mix(salt ^ *i as u64));
                other = idx.iter().map(|i| other[*i].clone()).collect();
            }
            let distinct: HashSet<&String> = lines.iter().collect();
            info.nontrivial_if(distinct.len() >= 3);
            let got = inspect(&index, &base, *json, d)?;
            ensure!(got.anomalies.is_empty(), "the log differs from itself: {}", short(&got.anomalies[0].anomaly));
            if !*json {
                let got = inspect(&index, other.join("\n").as_bytes(), *json, d)?;
                ensure!(got.anomalies.is_empty(), "a known line is reported: {}", short(&got.anomalies[0].anomaly));
            }
            Ok(())
        },
    );
    r.sub(
        "wide",
        "baselines of up to 40000 lines in one to three sources where every line has words of its own, targets made of those lines, in runs, with other varying values: no anomaly; non-trivial: more than 512 baseline and target lines",
        r.cases(32, 2000),
        || wide(false, 40_000),
        run_wide,
    );
    let scratch = r.scratch.clone();
    r.sub(
        "long",
        "two or three baseline files of the same group, of up to 150000 lines (runs of repeated lines, then new ones), and a target file of lines taken near the ends of those files: no anomaly; non-trivial: more than 50000 baseline lines before the last file",
        r.cases(16, 800),
        || (proptest::collection::vec((0u32..50, prop_oneof![1u32..2000, 20_000u32..75_000], 1u32..40), 2..4), proptest::collection::vec((0u8..4, 0u32..40), 1..40)),
        |(files, picks), info| {
            let dir = case_dir(&scratch);
            info.nontrivial_if(files[..files.len() - 1].iter().map(|f| f.1).sum::<u32>() > 50_000);
            for (i, (k, dups, own)) in files.iter().enumerate() {
                let mut data = String::new();
                for n in 0..*dups {
                    data += &format!("{}\n", wide_line(*k + n % 3, false, n));
                }
                for n in 0..*own {
                    data += &format!("{}\n", wide_line(1000 * (i as u32 + 1) + n, false, n));
                }
                crate::trees::write_file(&dir.path().join("good"), &format!("svc/apps.log.{}", i), data.as_bytes());
            }
            let mut data = String::new();
            for (f, n) in picks {
                let i = *f as usize % files.len();
                data += &format!("{}\n", wide_line(1000 * (i as u32 + 1) + n % files[i].2, false, 7 * n));
            }
            crate::trees::write_file(&dir.path().join("bad"), "svc/apps.log", data.as_bytes());
            let content = |p: &str| logreduce_model::Content::from_path(&dir.path().join(p)).map_err(|e| e.to_string());
            let quiet = logreduce_model::OutputMode::Quiet;
            let model = logreduce_model::Model::train(quiet, vec![content("good")?], hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
            let report = model.report(quiet, content("bad")?).map_err(|e| format!("no report: {:?}", e))?;
            for l in &report.log_reports {
                ensure!(l.anomalies.is_empty(), "{}: {} known lines are reported, e.g. {}", l.source, l.anomalies.len(), short(&l.anomalies[0].anomaly));
            }
            ensure!(report.total_line_count == picks.len() && report.read_errors.is_empty(), "{} lines read instead of {}", report.total_line_count, picks.len());
            Ok(())
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "tree",
        "one or two baseline directories of generated logs (plain, JSON, rotated, compressed, several of the same group, created in any order) and a target directory of some of those files: no anomaly, no unknown file; non-trivial: two files of the same group with different content",
        r.cases(4000, 100_000),
        || (proptest::collection::vec((0usize..TREE_NAMES.len(), 0u8..2, runs_small(), any::<bool>()), 1..6)),
        |files, info| {
            let dir = case_dir(&scratch);
            let mut groups = std::collections::HashMap::<&str, HashSet<&Vec<u8>>>::new();
            let mut contents: Vec<(&str, u8, Vec<u8>, bool)> = vec![];
            for (n, b, runs, taken) in files {
                let name = TREE_NAMES[*n];
                if contents.iter().all(|(m, c, _, _)| *m != name || c != b) {
                    contents.push((name, *b, render_runs(runs, 60), *taken));
                }
            }
            contents[0].3 = true;
            for (name, _, data, _) in &contents {
                groups.entry(&name[..8]).or_default().insert(data);
            }
            info.nontrivial_if(groups.values().any(|g| g.len() >= 2));
            let baselines: Vec<_> = [0u8, 1].iter().filter(|b| contents.iter().any(|c| c.1 == **b)).map(|b| dir.path().join(format!("good{}", b))).collect();
            for (name, b, data, taken) in &contents {
                let disk = if name.ends_with(".gz") { crate::trees::gzip(data, 1) } else { data.clone() };
                crate::trees::write_file(&dir.path().join(format!("good{}", b)), name, &disk);
                if *taken {
                    crate::trees::write_file(&dir.path().join("bad"), name, &disk);
                }
            }
            let content = |p: &std::path::Path| logreduce_model::Content::from_path(p).map_err(|e| e.to_string());
            let baselines = baselines.iter().map(|b| content(b)).collect::<Result<Vec<_>, _>>()?;
            let quiet = logreduce_model::OutputMode::Quiet;
            let model = logreduce_model::Model::train(quiet, baselines, hashing_index::new).map_err(|e| format!("training fails: {:?}", e))?;
            let report = model.report(quiet, content(&dir.path().join("bad"))?).map_err(|e| format!("no report: {:?}", e))?;
            for l in &report.log_reports {
                ensure!(l.anomalies.is_empty(), "{}: {} known lines are reported, e.g. {}", l.source, l.anomalies.len(), short(&l.anomalies[0].anomaly));
            }
            ensure!(report.index_errors.is_empty(), "{} groups are unknown", report.index_errors.len());
            Ok(())
        },
    );
}

/// The first eight characters are the group.
const TREE_NAMES: [&str; 10] = [
    "svc/data.json", "svc/data.json.1", "svc/data.json.gz", "svc/data.json.2.gz", "svc/data.json.2022-01-02", "svc/apps.log", "svc/apps.log.1", "svc/apps.log.gz", "svc/apps.log.3.gz", "svc/apps.log-20220102",
];

fn runs_small() -> impl Strategy<Value = Vec<Run>> {
    proptest::collection::vec(
        prop_oneof![
            2 => (0u32..60, 1u16..5).prop_map(|(k, n)| Run::Known { k, n }),
            2 => (0u32..400, 1u16..3).prop_map(|(u, n)| Run::New { u, n }),
            3 => (0u32..60, 0u32..400).prop_map(|(k, u)| Run::Object { k, u }),
            1 => (0u32..60, 0u32..40, any::<bool>()).prop_map(|(k, u, first)| Run::Embedded { k, u, first }),
        ],
        1..6,
    )
}

enum Outcome {
    Undecided,
    Compared(Vec<Found>, Inspected, Vec<Piece>),
}

fn run_case(c: &Case, info: &mut Info) -> Result<Outcome, String> {
    let sources = baseline_sources(c.base_n, c.sources, c.dups);
    let data = render_runs(&c.runs, c.base_n);
    let index = train(&sources, c.json, &c.delivery)?;
    let pieces = reference_split(&data, c.json);
    let Some(want) = Reference::new(&sources, c.json).detect(&pieces, &mut HashSet::new()) else {
        info.label("undecided");
        return Ok(Outcome::Undecided);
    };
    info.label_if(want.is_empty(), "no anomaly");
    info.label_if(pieces.len() > 512, "more than a chunk");
    info.label_if(want.len() > 100, "many anomalies");
    info.label_if(c.base_n > 512, "several baseline chunks");
    let got = inspect(&index, &data, c.json, &c.delivery)?;
    Ok(Outcome::Compared(want, got, pieces))
}

fn compare_anomalies(want: &[Found], got: &[AnomalyContext]) -> Check {
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else {
            return Err(format!("anomaly {} of {} is missing: {:?} (line {})", i, want.len(), short(&w.line), w.pos));
        };
        let g = &g.anomaly;
        ensure!(g.line == w.line && g.pos == w.pos, "anomaly {} is {} (line {}) instead of {} (line {})", i, short(&g.line), g.pos, short(&w.line), w.pos);
        ensure!((g.distance as f64 - w.distance).abs() < 1e-4, "the distance of {} is {} instead of {}", short(&g.line), g.distance, w.distance);
    }
    ensure!(got.len() == want.len(), "extra anomaly {} (line {})", short(&got[want.len()].anomaly.line), got[want.len()].anomaly.pos);
    Ok(())
}

/// Lines of words of their own: no two of them are alike, however many there are.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    base_n: u32,
    sources: u8,
    /// (first line, number of lines, step, unknown)
    runs: Vec<(u32, u16, u8, bool)>,
    delivery: Delivery,
}

pub fn wide_line(k: u32, unknown: bool, salt: u32) -> String {
    // scattered, as the hashes of words that look alike collide together
    let word = |i: u64| {
        let mut h = mix(mix(k as u64 * 2 + unknown as u64) ^ i);
        let mut w = String::new();
        for _ in 0..4 {
            w.push(b"bdklmnprstvz"[(h % 12) as usize] as char);
            w.push(b"oiuy"[(h / 12 % 4) as usize] as char);
            h /= 48;
        }
        w
    };
    format!("{:02}:{:02} {} {} {} {} {} took {}", salt % 24, salt % 60, word(1), word(2), word(3), word(4), word(5), salt % 10000)
}

fn wide(with_unknown: bool, max: u32) -> impl Strategy<Value = Wide> {
    let run = move || {
        prop_oneof![
            2 => (0u32..max, 100u16..6000, 1u8..4),
            3 => (prop_oneof![2 => 0u32..max, 1 => 0u32..10], 1u16..6, 1u8..3),
            2 => (0u32..max / 512 + 1, 1u16..4, 1u8..2).prop_map(|(c, n, s)| ((c * 512).saturating_sub(2), n, s)),
        ]
    };
    (prop_oneof![1u32..max, (1u32..max / 512 + 1, 0u32..3).prop_map(|(c, d)| c * 512 + d - 1)], 1u8..4, proptest::collection::vec((run(), any::<bool>()), 3..24), delivery()).prop_map(move |(base_n, sources, runs, delivery)| {
        let runs = runs.into_iter().map(|((k, n, s), u)| if u && with_unknown { (k, n.min(900), s, true) } else { (k, n, s, false) }).collect();
        Wide { base_n, sources, runs, delivery }
    })
}

fn run_wide(c: &Wide, info: &mut Info) -> Check {
    let n = c.base_n.max(1);
    let per = n / c.sources.max(1) as u32 + 1;
    let mut sources = vec![vec![]; c.sources.max(1) as usize];
    for k in 0..n {
        sources[(k / per) as usize].extend(format!("{}\n", wide_line(k, false, k)).into_bytes());
    }
    let index = train(&sources, false, &c.delivery)?;
    let mut data = vec![];
    let mut line = 0;
    let mut seen = HashSet::new();
    let mut want = vec![];
    for (k, count, step, unknown) in &c.runs {
        for i in 0..*count as u32 {
            let k = k + i * *step as u32;
            let k = if *unknown { k } else { k % n };
            line += 1;
            let text = wide_line(k, *unknown, line + k);
            data.extend(text.as_bytes());
            data.push(b'\n');
            if *unknown && seen.insert(k) {
                want.push((line as usize, text));
            }
        }
    }
    info.label_if(n > 5000, "more than 5000 baseline lines");
    info.label_if(line > 20_000, "more than 20000 lines");
    info.label_if(want.len() > 1000, "more than 1000 anomalies");
    info.nontrivial_if(n > 512 && line > 512);
    let got = inspect(&index, &data, false, &c.delivery)?;
    let got: Vec<(usize, String)> = got.anomalies.into_iter().map(|a| (a.anomaly.pos, a.anomaly.line)).collect();
    for (i, w) in want.iter().enumerate() {
        ensure!(got.get(i) == Some(w), "anomaly {} is {} instead of {}", i, short(&got.get(i)), short(w));
    }
    ensure!(got.len() == want.len(), "{} extra anomalies, e.g. {}", got.len() - want.len(), short(&got[want.len()]));
    Ok(())
}

fn c10(r: &mut Runner) {
    r.sub(
        "wide",
        "baselines of up to 12000 lines and targets of up to tens of thousands, where every line has words of its own, known and unknown lines in runs that come back thousands of lines later; exactly the first occurrence of each unknown line must be reported, in order; non-trivial: more than 512 baseline and target lines",
        r.cases(150, 2000),
        || wide(true, 12_000),
        run_wide,
    );
    r.sub(
        "threshold",
        "a target line and one to three baseline lines of 4 to 40 words with a chosen number of words in common, so that the distance is on either side of the threshold, often within 0.01 of it; the line is reported exactly if the cosine distance is greater than 0.3; non-trivial: the distance is between 0.28 and 0.32",
        r.cases(60_000, 800_000),
        || {
            (4usize..41, proptest::collection::vec((4usize..41, 0i8..8), 1..4), 0usize..96).prop_map(|(n, bases, shift)| {
                let bases = bases
                    .into_iter()
                    .map(|(m, jitter)| {
                        let s = 0.7 * ((n * m) as f64).sqrt();
                        let s = if jitter < 3 { s.floor() as i64 } else if jitter < 6 { s.ceil() as i64 } else { s as i64 + jitter as i64 - 7 };
                        (m, s.clamp(0, n.min(m) as i64) as usize)
                    })
                    .collect::<Vec<_>>();
                (n, bases, shift)
            })
        },
        |(n, bases, shift), info| {
            let word = |i: usize| vocab((i + shift) % 96);
            let target: Vec<String> = (0..*n).map(word).collect();
            // the words of the target come first, and the others of the baseline start after them
            let lines: Vec<String> = bases.iter().map(|(m, s)| (0..*s).map(word).chain((0..m - s).map(|i| word(n + i))).collect::<Vec<_>>().join(" ")).collect();
            let d = 1.0 - bases.iter().map(|(m, s)| *s as f64 / ((n * m) as f64).sqrt()).fold(0.0, f64::max);
            if (d - THRESHOLD).abs() < 1e-5 {
                info.label("undecided");
                return Ok(());
            }
            info.nontrivial_if((0.28..0.32).contains(&d));
            let index = train(&[lines.join("\n").into_bytes()], false, &Delivery(vec![]))?;
            let got = inspect(&index, target.join(" ").as_bytes(), false, &Delivery(vec![]))?;
            ensure!(got.anomalies.len() == usize::from(d > THRESHOLD), "{} anomalies for a line at distance {}", got.anomalies.len(), d);
            Ok(())
        },
    );
    r.sub(
        "detect",
        "baselines of 0-1300 lines, targets of known, unknown and partly known lines, error lines, duplicates, blank, embedded, single-word and over-long lines, small or around the chunk limits (512 unique lines, 5120 lines); compared with a whole-file reference detector using set cosine; non-trivial: an anomaly and a known line",
        r.cases(8000, 200_000),
        || case(true),
        |c, info| {
            if let Outcome::Compared(want, got, pieces) = run_case(c, info)? {
                info.nontrivial_if(!want.is_empty() && pieces.len() > want.len());
                compare_anomalies(&want, &got.anomalies)?;
                ensure!(got.line_count == pieces.len(), "{} lines counted instead of {}", got.line_count, pieces.len());
                let bytes: usize = pieces.iter().map(|p| p.bytes.len()).sum();
                ensure!(got.byte_count == bytes, "{} bytes counted instead of {}", got.byte_count, bytes);
            }
            Ok(())
        },
    );
    r.sub(
        "limits",
        "logs of one to three chunks whose limits (512 unique lines, 5121 lines, or both at the same line) are within a few lines of anomalies; same comparison; non-trivial: an anomaly within 8 lines of a limit",
        r.cases(1600, 150_000),
        limits,
        |c, info| {
            if let Outcome::Compared(want, got, pieces) = run_case(c, info)? {
                info.nontrivial_if(!want.is_empty());
                compare_anomalies(&want, &got.anomalies)?;
                ensure!(got.line_count == pieces.len(), "{} lines counted instead of {}", got.line_count, pieces.len());
            }
            Ok(())
        },
    );
    r.sub(
        "huge",
        "baselines of up to 5000 lines and targets of tens of thousands of lines (up to more than 65536), with long runs of repeated lines; anomalies and contexts are compared with the reference; non-trivial: more than 20000 lines and an anomaly after the first 10000",
        r.cases(48, 800),
        huge,
        |c, info| {
            if let Outcome::Compared(want, got, pieces) = run_case(c, info)? {
                info.nontrivial_if(pieces.len() > 20_000 && want.iter().any(|w| w.pos > 10_000));
                info.label_if(pieces.len() > 65_536, "more than 65536 lines");
                compare_anomalies(&want, &got.anomalies)?;
                compare_contexts(&want, &got.anomalies)?;
                ensure!(got.line_count == pieces.len(), "{} lines counted instead of {}", got.line_count, pieces.len());
            }
            Ok(())
        },
    );
}

/// Logs of tens of thousands of lines.
fn huge() -> impl Strategy<Value = Case> {
    let run = prop_oneof![
        2 => (0u32..4000, 500u16..9000).prop_map(|(k, n)| Run::Known { k, n }),
        2 => (0u32..4000, 1000u16..40000).prop_map(|(k, n)| Run::Dup { k, n }),
        2 => (0u32..60000, 1u16..700).prop_map(|(u, n)| Run::New { u, n }),
        1 => (0u32..60000, 1000u16..20000).prop_map(|(u, n)| Run::NewDup { u, n }),
        2 => (0u32..4000, 1u16..10).prop_map(|(k, n)| Run::Known { k, n }),
        2 => prop_oneof![0u32..60000, 0u32..6].prop_flat_map(|u| (Just(u), 1u16..4)).prop_map(|(u, n)| Run::New { u, n }),
        3 => (0u32..4000, 0u8..6).prop_map(|(k, shared)| Run::Mixed { k, shared }),
        1 => (0u32..4000).prop_map(|k| Run::Error { k }),
    ];
    (1u32..5000, 1u8..4, proptest::collection::vec(run, 6..18)).prop_map(|(base_n, sources, runs)| Case { base_n, sources, dups: false, runs, json: false, delivery: Delivery(vec![]) })
}

pub fn compare_contexts(want: &[Found], got: &[AnomalyContext]) -> Check {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        // another anomaly is not a matter of context
        if g.anomaly.pos != w.pos || g.anomaly.line != w.line {
            return Ok(());
        }
        let at = format!("anomaly {} (line {})", i, w.pos);
        // When the next anomaly was missed, more after context is expected
        let next_same = match (want.get(i + 1), got.get(i + 1)) {
            (Some(a), Some(b)) => a.pos == b.anomaly.pos && a.line == b.anomaly.line,
            (None, None) => true,
            _ => false,
        };
        if next_same {
            ensure!(g.after == w.after, "{}: the after context is {} instead of {}", at, short(&g.after), short(&w.after));
        }
        ensure!(g.before == w.before, "{}: the before context is {} instead of {}", at, short(&g.before), short(&w.before));
    }
    Ok(())
}

/// Up to three chunks whose limits (512 unique lines, 5121 lines, or both at once) are next to anomalies.
fn limits() -> impl Strategy<Value = Case> {
    let near = || {
        proptest::collection::vec(
            prop_oneof![
                3 => (0u32..60, 1u16..4).prop_map(|(k, n)| Run::Dup { k, n }),
                3 => (1900u32..2000, 1u16..4).prop_map(|(k, n)| Run::Known { k, n }),
                4 => (0u32..1000, 1u16..3).prop_map(|(u, n)| Run::New { u, n }),
            ],
            0..5,
        )
    };
    let fill = prop_oneof![
        6 => (500u16..513).prop_map(|n| (n, 0)),
        2 => (5110u16..5122).prop_map(|n| (0, n)),
        1 => (505u16..512, 5116u16..5121).prop_map(|(n, all)| (n, all - n)),
    ];
    let block = (near(), fill, near());
    (prop_oneof![3 => proptest::collection::vec(block.clone(), 1), 1 => proptest::collection::vec(block, 2..4)], delivery()).prop_map(|(blocks, delivery)| {
        let mut runs = vec![];
        for (i, (a, (known, dup), b)) in blocks.into_iter().enumerate() {
            runs.extend(a);
            runs.push(Run::Known { k: 100 + 600 * i as u32, n: known });
            runs.push(Run::Dup { k: 7, n: dup });
            runs.extend(b);
        }
        Case { base_n: 2200, sources: 1, dups: false, runs, json: false, delivery }
    })
}

fn c11(r: &mut Runner) {
    r.sub(
        "context",
        "logs as in C10; the before and after lines of every anomaly are compared with those taken from the whole file; non-trivial: at least two anomalies, one of them within six lines of another, of a chunk limit or of an end of the file",
        r.cases(8000, 200_000),
        || case(true),
        |c, info| {
            if let Outcome::Compared(want, got, _) = run_case(c, info)? {
                info.nontrivial_if(want.len() >= 2 && want.iter().any(|f| f.before.len() < 3 || f.after.len() < 3));
                compare_contexts(&want, &got.anomalies)?;
            }
            Ok(())
        },
    );
    r.sub(
        "boundary",
        "logs whose 512th unique line, 5121st buffered line or both at once, of up to three chunks, is within a few lines of anomalies, with generated small runs on both sides; same comparison; non-trivial: an anomaly within 8 lines of the limit",
        r.cases(1600, 150_000),
        limits,
        |c, info| {
            if let Outcome::Compared(want, got, _) = run_case(c, info)? {
                info.nontrivial_if(!want.is_empty());
                info.label_if(want.len() >= 2, "two anomalies");
                compare_contexts(&want, &got.anomalies)?;
            }
            Ok(())
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stopped {
    case: Case,
    tail: Vec<Run>,
    /// banner, invalid utf-8, read error
    how: u8,
    prefix: String,
    kind: u8,
    partial: u8,
}

fn c12(r: &mut Runner) {
    r.sub(
        "stop",
        "logs as in C10 followed by the banner, by a line that is not UTF-8, or by a read error (possibly in the middle of a line), then by more lines; everything before the stop must be reported as by the reference on those lines, a failure must come out once, after them, and nothing may follow the banner, even when the iterator is asked again; non-trivial: an anomaly before the stop",
        r.cases(8000, 200_000),
        || {
            (case(true), proptest::collection::vec(prop_oneof![(0u32..40, 1u16..5).prop_map(|(u, n)| Run::New { u: u + 500, n }), (0u32..60, 1u16..5).prop_map(|(k, n)| Run::Known { k, n })], 0..5), 0u8..3, prop_oneof![Just(""), Just("2022-01-01 | "), Just("dolor ipsum ")], 0u8..4, 0u8..40)
                .prop_map(|(mut case, tail, how, prefix, kind, partial)| {
                    // in JSON mode the brackets of the banner split the line
                    case.json = case.json && how != 0;
                    Stopped { case, tail, how, prefix: prefix.to_string(), kind, partial }
                })
        },
        |s, info| {
            let c = &s.case;
            let sources = baseline_sources(c.base_n, c.sources, c.dups);
            let head = render_runs(&c.runs, c.base_n);
            let mut data = head.clone();
            let tail = render_runs(&s.tail, c.base_n);
            let mut errors = vec![];
            match s.how {
                0 => data.extend(format!("{}TASK [log-classify : run]\n", s.prefix).into_bytes()),
                1 => {
                    data.extend(s.prefix.as_bytes());
                    data.extend(b"bad \xff\xfe bytes\n");
                }
                _ => {
                    // part of a line was delivered before the failure
                    let partial = "partial line never completed and so on".as_bytes();
                    data.extend(&partial[..(s.partial as usize).min(partial.len())]);
                    errors.push((data.len(), s.kind));
                    data.extend(b"\n");
                }
            }
            data.extend(&tail);
            let index = train(&sources, c.json, &c.delivery)?;
            let pieces = reference_split(&head, c.json);
            let Some(want) = Reference::new(&sources, c.json).detect(&pieces, &mut HashSet::new()) else {
                info.label("undecided");
                return Ok(());
            };
            // An open quote of the head would make the tail part of its last line
            info.nontrivial_if(!want.is_empty());
            info.label(["banner", "invalid utf-8", "read error"][s.how as usize % 3]);
            let mut skip = HashSet::new();
            let reader = TestReader::new(data.clone(), &c.delivery).with_errors(errors);
            let mut p = ChunkProcessor::new(reader, &index, c.json, &mut skip);
            let mut items = vec![];
            let mut nones = 0;
            // ask again after the end
            while nones < 3 && items.len() < data.len() {
                match p.next() {
                    Some(i) => items.push(i),
                    None => nones += 1,
                }
            }
            let failures = items.iter().filter(|i| i.is_err()).count();
            let before_failure: Vec<AnomalyContext> = items.iter().take_while(|i| i.is_ok()).map(|i| i.as_ref().unwrap().clone()).collect();
            let what = ["banner", "invalid line", "read error"][s.how as usize % 3];
            compare_anomalies(&want, &before_failure).map_err(|e| format!("before the {}: {}", what, e))?;
            for (w, g) in want.iter().zip(&before_failure) {
                ensure!(g.before == w.before && g.after == w.after, "before the {}: the context of line {} is {} and {}", what, w.pos, short(&g.before), short(&g.after));
            }
            ensure!(failures == usize::from(s.how != 0), "{} failures are reported for the {}", failures, what);
            Ok(())
        },
    );
}
