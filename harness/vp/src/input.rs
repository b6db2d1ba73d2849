//! C30: the interpretation of user inputs.
use crate::engine::*;
use crate::{ensure, prop, Prop};
use logreduce_model::{Content, Input, Source};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C30",
        "exploration",
        c30,
        &["the url crate tells which urls are well formed", "the paths are relative to a scratch directory that is the current one, or absolute in it"],
    )]
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Missing,
    File,
    Empty,
    Dir,
    Fifo,
    Socket,
    LinkFile,
    LinkDir,
    LinkBroken,
    LinkLoop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Local {
    parents: Vec<String>,
    name: String,
    kind: Kind,
    /// how the path is written
    form: u8,
    /// what is found next to it with .0 added to its name
    rotated: Option<Kind>,
}

fn component() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z]{1,6}(\\.(log|txt|gz|json|0))?",
        2 => prop_oneof!["http", "https", "http:", "https:", "http:x", "https:a\\.log", "httpd", "http-logs", "https\\.log", "HTTP:", "Http:", "ftp:", "file:"].prop_map(|s| s.replace('\\', "")),
        1 => prop_oneof![Just("build".to_string()), Just("t".to_string()), "[0-9a-f]{32}"],
        1 => "[!-.0-~ ]{1,8}",
        1 => "[éà漢🦀 \\t]{1,4}",
        1 => Just("-".to_string()),
    ]
    .prop_filter("a name", |s| s != "." && s != "..")
    .boxed()
}

fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        2 => Just(Kind::Missing), 4 => Just(Kind::File), 1 => Just(Kind::Empty), 4 => Just(Kind::Dir), 1 => Just(Kind::Fifo), 1 => Just(Kind::Socket),
        1 => Just(Kind::LinkFile), 1 => Just(Kind::LinkDir), 1 => Just(Kind::LinkBroken), 1 => Just(Kind::LinkLoop)
    ]
}

fn create(dir: &Path, path: &Path, kind: &Kind, tag: &str) {
    let link = |to: &Path| std::os::unix::fs::symlink(to, path).unwrap();
    match kind {
        Kind::Missing => {}
        Kind::File => std::fs::write(path, "a line\n").unwrap(),
        Kind::Empty => std::fs::write(path, "").unwrap(),
        Kind::Dir => std::fs::create_dir(path).unwrap(),
        Kind::Fifo => {
            let c = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
            assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
        }
        Kind::Socket => {
            // the name of a socket is limited in length
            std::env::set_current_dir(path.parent().unwrap()).unwrap();
            drop(std::os::unix::net::UnixListener::bind("vp-socket").unwrap());
            std::fs::rename("vp-socket", path).unwrap();
        }
        Kind::LinkFile => {
            let t = dir.join(format!("the-file-{}", tag));
            std::fs::write(&t, "a line\n").unwrap();
            link(&t)
        }
        Kind::LinkDir => {
            let t = dir.join(format!("the-dir-{}", tag));
            std::fs::create_dir(&t).unwrap();
            link(&t)
        }
        Kind::LinkBroken => link(&dir.join("nowhere")),
        Kind::LinkLoop => link(path),
    }
}

fn is_dir(k: &Kind) -> bool {
    matches!(k, Kind::Dir | Kind::LinkDir)
}

fn is_file(k: &Kind) -> bool {
    matches!(k, Kind::File | Kind::Empty | Kind::LinkFile)
}

fn from_string(s: &str) -> Result<anyhow::Result<Content>, String> {
    no_panic(|| Content::from_input(Input::from_string(s.to_string()))).map_err(|e| format!("{:?}: {}", s, e))
}

fn check_local(c: &Local, scratch: &Path, info: &mut Info) -> Check {
    let dir = case_dir(scratch);
    let dir = dir.path();
    let parents: PathBuf = c.parents.iter().collect();
    std::fs::create_dir_all(dir.join("at").join(&parents)).map_err(|e| e.to_string())?;
    let at = dir.join("at");
    let full = at.join(&parents).join(&c.name);
    create(dir, &full, &c.kind, "a");
    std::env::set_current_dir(&at).unwrap();
    let relative = parents.join(&c.name).to_str().unwrap().to_string();
    let mut slash = false;
    let input = match c.form % 5 {
        0 | 1 => relative,
        2 => full.to_str().unwrap().to_string(),
        3 => format!("./{}", relative),
        _ => {
            slash = true;
            format!("{}/", relative)
        }
    };
    let url_like = input.starts_with("http://") || input.starts_with("https://");
    info.nontrivial_if(is_dir(&c.kind) || is_file(&c.kind) && !slash);
    info.label_if(input.starts_with("http"), "named http");
    info.label_if(url_like, "a url");
    let got = from_string(&input)?;
    let source = Source::Local(0, PathBuf::from(&input));
    let want = if url_like {
        // a relative path in a directory named http: with one more slash
        None
    } else if is_dir(&c.kind) {
        Some(Content::Directory(source))
    } else if is_file(&c.kind) && !slash {
        Some(Content::File(source))
    } else {
        None
    };
    if !url_like {
        match (&want, &got) {
            (Some(w), Ok(g)) => ensure!(w == g, "{:?} ({:?}) is {} instead of {}", input, c.kind, g, w),
            (Some(w), Err(e)) => return Err(format!("{:?} ({:?}) is an error instead of {}: {:?}", input, c.kind, w, e)),
            (None, Ok(g)) => return Err(format!("{:?} ({:?}) is {}", input, c.kind, g)),
            (None, Err(_)) => {}
        }
    }
    // the default baseline of a local file is the rotated one
    if let (Some(content @ Content::File(_)), Some(r)) = (&want, &c.rotated) {
        let path = PathBuf::from(format!("{}.0", full.display()));
        if std::fs::symlink_metadata(&path).is_err() {
            create(dir, &path, r, "b");
            std::env::set_current_dir(&at).unwrap();
        }
        let source = Source::Local(0, PathBuf::from(format!("{}.0", input)));
        let want = if is_dir(r) {
            Some(vec![Content::Directory(source)])
        } else if is_file(r) {
            Some(vec![Content::File(source)])
        } else {
            None
        };
        info.label("rotated");
        let got = no_panic(|| content.discover_baselines())?;
        match (want, got) {
            (Some(w), Ok(g)) => ensure!(w == g, "the baseline of {:?} is {:?}", input, g),
            (Some(_), Err(e)) => return Err(format!("no baseline is found for {:?}: {:?}", input, e)),
            (None, Ok(g)) => return Err(format!("the baseline of {:?} is {:?} ({:?})", input, g, r)),
            (None, Err(_)) => {}
        }
    }
    if let Some(content @ Content::Directory(_)) = &want {
        ensure!(no_panic(|| content.discover_baselines())?.is_err(), "a baseline is found for the directory {:?}", input);
    }
    Ok(())
}

fn looks_like_build(u: &url::Url) -> bool {
    let s: Vec<&str> = u.path_segments().map(|s| s.collect()).unwrap_or_default();
    s.windows(2).any(|w| w[0] == "build") || u.as_str().contains("/build/")
}

fn check_url(s: &String, scratch: &Path, info: &mut Info) -> Check {
    std::env::set_current_dir(scratch).unwrap();
    let is_url = s.starts_with("http://") || s.starts_with("https://");
    let parsed = url::Url::parse(s);
    if let Ok(u) = &parsed {
        if looks_like_build(u) && u.host_str() != Some("127.0.0.1") {
            info.label("a build page");
            return Ok(());
        }
    }
    let got = from_string(s)?;
    if !is_url {
        info.label("a path");
        match got {
            Ok(Content::Directory(Source::Local(0, p))) => ensure!(p == Path::new(s) && p.is_dir(), "{:?} is the directory {:?}", s, p),
            Ok(Content::File(Source::Local(0, p))) => ensure!(p == Path::new(s) && p.is_file(), "{:?} is the file {:?}", s, p),
            Ok(o) => return Err(format!("{:?} is {}", s, o)),
            Err(_) => ensure!(!Path::new(s).exists() || !(Path::new(s).is_file() || Path::new(s).is_dir()), "{:?} is an error", s),
        }
        return Ok(());
    }
    match (parsed, got) {
        (Err(_), Ok(o)) => return Err(format!("{:?} is not a url and becomes {}", s, o)),
        (Err(_), Err(_)) => info.label("malformed"),
        (Ok(u), Err(e)) => {
            // a page of a zuul build whose server can not be reached
            ensure!(looks_like_build(&u), "{:?} is an error: {:?}", s, e);
            info.label("unreachable build");
        }
        (Ok(u), Ok(o)) => {
            info.nontrivial();
            ensure!(u.has_host(), "{:?} has no host and is {}", s, o);
            let want = if u.as_str().ends_with('/') { Content::Directory(Source::Remote(0, u)) } else { Content::File(Source::Remote(0, u)) };
            ensure!(o == want, "{:?} is {} instead of {}", s, o, want);
            ensure!(o.discover_baselines().is_err(), "a baseline is found for {:?}", s);
        }
    }
    Ok(())
}

fn any_input() -> impl Strategy<Value = String> {
    let scheme = prop_oneof![6 => Just("http://"), 6 => Just("https://"), 1 => Just("http:/"), 1 => Just("http:"), 1 => Just("HTTP://"), 1 => Just("ftp://"), 1 => Just("https:///"), 1 => Just(" http://"), 1 => Just("")].prop_map(String::from);
    let host = prop_oneof![
        5 => "[a-z]{1,8}(\\.[a-z]{2,5}){0,2}", 1 => Just(String::new()), 1 => "\\PC{0,6}", 1 => "[0-9.:\\[\\]%@]{0,9}", 1 => "127\\.0\\.0\\.1:1", 1 => "[a-z]{1,4}:[0-9]{0,7}", 1 => "[a-z]{1,3}@[a-z]{1,4}",
        1 => Just("[::1]".to_string()), 1 => Just("xn--".to_string()), 1 => Just("xn--a-ecp.ru".to_string())
    ];
    let path = prop_oneof![
        4 => "(/[a-z0-9._-]{0,6}){0,4}", 1 => "/?\\PC{0,10}", 1 => "/[a-z]{0,4}\\?[a-z=&/]{0,8}", 1 => "/[a-z]{0,4}#[a-z/]{0,5}", 1 => "/\\.\\./[a-z]{0,3}", 1 => "(/t/[a-z]{1,4})?/build/[0-9a-f]{31,33}/?",
        1 => "/build/[0-9a-f]{30}é", 1 => "/(t/)?build/?", 1 => "[\\\\/%#?]{0,6}"
    ];
    prop_oneof![8 => (scheme, host, path).prop_map(|(a, b, c)| format!("{}{}{}", a, b, c)), 1 => "\\PC{0,12}", 1 => "[\\x00-\\x20a-z:/.]{0,10}", 1 => proptest::collection::vec(any::<char>(), 0..8).prop_map(|v| v.into_iter().collect())]
}

fn c30(r: &mut Runner) {
    let scratch = r.scratch.clone();
    r.sub(
        "local",
        "files, directories, links to them, broken and looping links, FIFOs, sockets and missing paths, named after urls, schemes, symbols and Unicode, given relative, absolute and with a trailing slash, with a rotated file or something else of its name; non-trivial: a file or a directory",
        r.cases(144_000, 576_000),
        || {
            (proptest::collection::vec(component(), 0..3), component(), kind(), 0u8..5, proptest::option::of(kind())).prop_map(|(parents, name, kind, form, rotated)| Local { parents, name, kind, form, rotated })
        },
        |c, info| check_local(c, &scratch, info),
    );
    r.sub(
        "string",
        "schemes, hosts and paths put together, malformed or not, pages of builds on a closed port, and arbitrary strings; non-trivial: a well formed url",
        r.cases(480_000, 1_920_000),
        any_input,
        |s, info| check_url(s, &scratch, info),
    );
    std::env::set_current_dir("/").unwrap();
}
