//! C31: the Python bindings.
use crate::engine::*;
use crate::{ensure, logs, prop, Prop};
use logreduce_index::{Features, FeaturesMatrix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![prop("C31", "exploration", c31, &["the functions are called with the models they are made for: a model of index is not given to search_mat", "the extension is built from the sources of the bindings with the Python found in the path"])]
}

struct Python {
    child: Child,
    input: ChildStdin,
    output: BufReader<ChildStdout>,
}

impl Python {
    fn start(scratch: &Path) -> Python {
        let dir = scratch.join("py");
        std::fs::create_dir_all(&dir).unwrap();
        let lib = std::env::current_exe().unwrap().with_file_name("liblogreduce_binding.so");
        let link = dir.join("logreduce_rust.so");
        let _ = std::fs::remove_file(&link);
        std::os::unix::fs::symlink(&lib, &link).unwrap();
        let verif = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into());
        let mut child = Command::new("python3")
            .args(["-I", "-B"])
            .arg(verif.join("harness/py/driver.py"))
            .arg(&dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("python3");
        let (input, output) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Python { child, input, output }
    }
    fn call(&mut self, op: Value) -> Result<Value, String> {
        let mut line = op.to_string();
        line.push('\n');
        let mut answer = String::new();
        let sent = self.input.write_all(line.as_bytes()).and_then(|_| self.input.flush());
        if sent.is_err() || self.output.read_line(&mut answer).is_err() || answer.is_empty() {
            return Err(format!("Python died in {}: {:?}", op[0], self.child.wait()));
        }
        let v: Value = serde_json::from_str(&answer).map_err(|e| format!("{}: {}", e, short(&answer)))?;
        match v.get("err") {
            Some(e) => Err(format!("{} raises {}", op[0], e)),
            None => Ok(v["ok"].clone()),
        }
    }
}

impl Drop for Python {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Process(String),
    Generate(u16),
    Index(u8, Vec<String>),
    Search(u8, String),
    IndexMat(u8, Vec<String>),
    SearchMat(u8, Vec<String>),
    Save(u8),
    Load(u8, u8),
    Drop(u8),
}

fn line() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0u32..6, 0u32..4).prop_map(|(k, s)| logs::known(k, s)),
        2 => (0u32..6, 0u32..4).prop_map(|(k, s)| logs::unknown(k, s)),
        2 => (0u32..6, 0u8..6).prop_map(|(k, s)| logs::mixed(k, s)),
        1 => Just(String::new()),
        1 => "\\PC{0,30}",
        1 => "[a-z% ]{0,30}",
        1 => proptest::collection::vec(any::<char>(), 0..10).prop_map(|v| v.into_iter().collect::<String>()),
    ]
    .boxed()
}

fn op() -> impl Strategy<Value = Op> {
    let lines = || proptest::collection::vec(line(), 0..8);
    prop_oneof![
        2 => line().prop_map(Op::Process),
        1 => (0u16..40).prop_map(Op::Generate),
        2 => (0u8..3, lines()).prop_map(|(n, l)| Op::Index(n, l)),
        4 => (0u8..3, line()).prop_map(|(n, l)| Op::Search(n, l)),
        2 => (0u8..3, lines()).prop_map(|(n, l)| Op::IndexMat(n, l)),
        4 => (0u8..3, lines()).prop_map(|(n, l)| Op::SearchMat(n, l)),
        2 => (0u8..3).prop_map(Op::Save),
        2 => (0u8..3, 0u8..3).prop_map(|(a, b)| Op::Load(a, b)),
        1 => (0u8..6).prop_map(Op::Drop),
    ]
}

#[derive(Default)]
struct Model {
    lists: BTreeMap<u8, Vec<Features>>,
    mats: BTreeMap<u8, FeaturesMatrix>,
}

fn number(v: &Value) -> Result<f32, String> {
    v.as_str().and_then(|s| s.parse::<f64>().ok()).map(|d| d as f32).ok_or(format!("not a number: {}", v))
}

fn same(a: f32, b: f32) -> bool {
    a == b || a.is_nan() && b.is_nan()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect()
}

fn step(op: &Op, m: &mut Model, py: &mut Python, info: &mut Info) -> Check {
    match op {
        Op::Process(l) => {
            let (got, want) = (py.call(json!(["process", l]))?, logreduce_tokenizer::process(l));
            ensure!(got == json!(want), "process({:?}) is {} instead of {:?}", l, got, want);
        }
        Op::Generate(n) => {
            let got = py.call(json!(["generate", n]))?;
            let got = got.as_str().ok_or("not a text")?;
            let lines: Vec<&str> = if *n == 0 { vec![] } else { got.split('\n').collect() };
            ensure!(*n > 0 || got.is_empty(), "generate(0) is {:?}", got);
            ensure!(lines.len() == *n as usize, "generate({}) has {} lines", n, lines.len());
            for l in &lines {
                let words: Vec<&str> = l.split(' ').collect();
                ensure!((2..=9).contains(&words.len()), "{} words in {:?}", words.len(), l);
                ensure!(words.iter().all(|w| (2..=17).contains(&w.len()) && w.bytes().all(|b| b.is_ascii_alphanumeric())), "a word of {:?}", l);
            }
            let want: Vec<String> = logreduce_generate::gen_lines().take(*n as usize).collect();
            ensure!(lines == want, "generate({}) is not the start of the lines of the generator", n);
        }
        Op::Index(n, lines) => {
            py.call(json!(["index", n, lines]))?;
            m.lists.insert(*n, logreduce_index::index(&mut lines.iter().cloned()));
        }
        Op::Search(n, l) => {
            let Some(model) = m.lists.get(n) else { return Ok(()) };
            let (got, want) = (number(&py.call(json!(["search", n, l]))?)?, logreduce_index::search(model, l));
            info.nontrivial_if(want > 0.0 && want < 1.0);
            ensure!(same(got, want), "search({:?}) is {} instead of {}", l, got, want);
        }
        Op::IndexMat(n, lines) => {
            py.call(json!(["index_mat", 10 + n, lines]))?;
            m.mats.insert(*n, logreduce_index::index_mat(lines));
        }
        Op::SearchMat(n, lines) => {
            let Some(model) = m.mats.get(n) else { return Ok(()) };
            let got = py.call(json!(["search_mat", 10 + n, lines]))?;
            let got = got.as_array().ok_or("not a list")?.iter().map(number).collect::<Result<Vec<f32>, String>>()?;
            let want = logreduce_index::search_mat(model, lines);
            info.nontrivial_if(want.iter().any(|w| *w > 0.0 && *w < 1.0));
            ensure!(got.len() == lines.len() && got.len() == want.len(), "search_mat gives {} distances for {} lines", got.len(), lines.len());
            ensure!(got.iter().zip(&want).all(|(g, w)| same(*g, *w)), "search_mat({}) is {:?} instead of {:?}", short(lines), got, want);
        }
        Op::Save(n) => {
            let Some(model) = m.mats.get(n) else { return Ok(()) };
            let (got, want) = (py.call(json!(["save", 10 + n]))?, logreduce_index::save_mat(model));
            ensure!(got == json!(hex(&want)), "save_mat differs");
        }
        Op::Load(a, b) => {
            let Some(model) = m.mats.get(a).cloned() else { return Ok(()) };
            py.call(json!(["load", 10 + a, 10 + b]))?;
            // a loaded model is the saved one
            info.label("loaded");
            m.mats.insert(*b, model);
        }
        Op::Drop(n) => {
            py.call(json!(["drop", if *n < 3 { *n } else { 7 + n }]))?;
            match *n {
                0..=2 => drop(m.lists.remove(n)),
                _ => drop(m.mats.remove(&(n - 3))),
            }
        }
    }
    Ok(())
}

fn c31(r: &mut Runner) {
    let python: RefCell<Option<Python>> = RefCell::new(None);
    let scratch = r.scratch.clone();
    r.sub(
        "calls",
        "sequences of up to 24 calls of all the functions on up to six living models, over lines of a common vocabulary, Unicode and control characters; each result is that of the Rust function, and a loaded model is the saved one; non-trivial: a distance between 0 and 1",
        r.cases(100_000, 400_000),
        || proptest::collection::vec(op(), 0..24),
        |ops, info| {
            let mut py = python.borrow_mut();
            let py_ref = py.get_or_insert_with(|| Python::start(&scratch));
            let mut m = Model::default();
            let result = py_ref.call(json!(["reset"])).and_then(|_| ops.iter().try_for_each(|o| step(o, &mut m, py_ref, info)));
            if result.is_err() {
                // it may be dead
                *py = None;
            }
            result
        },
    );
    r.sub(
        "many",
        "models of up to 2000 baselines, some of them repeated, searched for up to 200 lines; each distance is that of the Rust function; non-trivial: more than 600 baselines and a distance between 0 and 1",
        r.cases(160, 1_600),
        || {
            let lines = |n| (1u32..n, any::<u32>());
            (lines(2000), lines(200), 1u32..4)
        },
        |((n, from), (t, at), rep), info| {
            let mut py = python.borrow_mut();
            let py_ref = py.get_or_insert_with(|| Python::start(&scratch));
            let word = |i: u32| crate::proc::wide_line(i % 5000, false, i);
            let base: Vec<String> = (0..*n).map(|i| word(from.wrapping_add(i / rep))).collect();
            let target: Vec<String> = (0..*t).map(|i| if i % 3 == 0 { logs::mixed(i, (at % 7) as u8) } else { word(from.wrapping_add(mix((i + at % 1000) as u64) as u32 % (2 * n))) }).collect();
            let model = logreduce_index::index_mat(&base);
            let want = logreduce_index::search_mat(&model, &target);
            info.nontrivial_if(base.len() > 600 && want.iter().any(|w| *w > 0.0 && *w < 1.0));
            info.label_if(want.contains(&0.0), "found");
            py_ref.call(json!(["reset"]))?;
            py_ref.call(json!(["index_mat", 10, base]))?;
            let got = py_ref.call(json!(["search_mat", 10, target]))?;
            let got = got.as_array().ok_or("not a list")?.iter().map(number).collect::<Result<Vec<f32>, String>>()?;
            ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| same(*g, *w)), "search_mat over {} baselines is {:?} instead of {:?}", base.len(), short(&got), short(&want));
            py_ref.call(json!(["index", 0, base]))?;
            let list = logreduce_index::index(&mut base.iter().cloned());
            for l in target.iter().take(20) {
                let (got, want) = (number(&py_ref.call(json!(["search", 0, l]))?)?, logreduce_index::search(&list, l));
                ensure!(same(got, want), "search({:?}) over {} baselines is {} instead of {}", l, base.len(), got, want);
            }
            Ok(())
        },
    );
    r.sub(
        "generate",
        "generate(n) for any n up to 3000 begins with generate(n-1), non-trivial: n > 1",
        r.cases(1_600, 6_400),
        || prop_oneof![0u32..50, 0u32..3000],
        |n, info| {
            let mut py = python.borrow_mut();
            let py_ref = py.get_or_insert_with(|| Python::start(&scratch));
            info.nontrivial_if(*n > 1);
            let a = py_ref.call(json!(["generate", n]))?;
            let b = py_ref.call(json!(["generate", n + 1]))?;
            let (a, b) = (a.as_str().ok_or("not a text")?, b.as_str().ok_or("not a text")?);
            ensure!(b.starts_with(a), "generate({}) does not begin with generate({})", n + 1, n);
            ensure!(b[a.len()..].trim_start_matches('\n').lines().count() == 1, "generate({}) adds {:?}", n + 1, &b[a.len()..]);
            Ok(())
        },
    );
}
