//! C22-C23: the content cache.
use crate::engine::*;
use crate::store::with_file_limit;
use crate::{ensure, prop, Prop};
use logreduce_cache::Cache;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{ErrorKind, Read};
use std::path::Path;
use url::Url;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C22", "exploration", c22, &["urls are compared as normalised by the url crate", "each case has its own cache directory"]),
        prop("C23", "fault-injection", c23, &["the death of the process is a reader that is never dropped", "a failing disk is a file size limit"]),
    ]
}

/// Urls that are easily mixed up.
const URLS: [&str; 14] = [
    "http://localhost/",
    "http://localhost/builds",
    "http://localhost/builds/",
    "http://localhost/builds/a.txt",
    "http://localhost/builds/a.txt?x=1",
    "http://localhost/builds/a.txt#top",
    "http://localhost/builds/A.txt",
    "https://localhost/builds/a.txt",
    "http://localhost:8080/builds/a.txt",
    "http://user@localhost/builds/a.txt",
    "http://localhost/builds/a%20b",
    "http://localhost/builds/a%2Fb",
    "http://localhost/builds/a/b",
    "http://localhos/t/builds/a/b",
];

fn url(i: u8) -> Url {
    Url::parse(URLS[i as usize % URLS.len()]).unwrap()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Data {
    len: u32,
    kind: u8,
    seed: u32,
}

impl Data {
    fn bytes(&self) -> Vec<u8> {
        let mut x = mix(self.seed as u64);
        (0..self.len)
            .map(|i| match self.kind % 3 {
                0 => b"lorem ipsum\n"[i as usize % 12],
                1 => (self.seed as usize + i as usize) as u8,
                _ => {
                    x = mix(x);
                    x as u8
                }
            })
            .collect()
    }
}

fn data() -> impl Strategy<Value = Data> {
    (prop_oneof![1 => Just(0u32), 4 => 1u32..40, 3 => 40u32..3000, 1 => 3000u32..100_000], 0u8..3, any::<u32>()).prop_map(|(len, kind, seed)| Data { len, kind, seed })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    /// read until the end is seen
    Full,
    /// the consumer stops after this share of the content (per mille)
    Early(u16),
    /// the consumer knows the size: the end is not seen
    Exact,
    /// the remote fails there, and the consumer stops
    Fails(u16),
    /// the remote fails there, the consumer tries again and the remote goes on
    Resumes(u16),
    /// the remote fails there, the consumer tries again and the remote has no more data
    Drops(u16),
    /// the process dies
    Dies(u16),
    /// the process dies after the end was seen
    DiesAfter,
}

struct Remote {
    data: Vec<u8>,
    pos: usize,
    step: usize,
    fail_at: Option<usize>,
    drops: bool,
    interrupts: bool,
    n: usize,
}

impl Read for Remote {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.interrupts && self.n % 3 == 2 && self.pos < self.data.len() {
            return Err(ErrorKind::Interrupted.into());
        }
        if self.fail_at.is_some_and(|f| self.pos >= f) {
            self.fail_at = None;
            if self.drops {
                self.data.truncate(self.pos);
            }
            return Err(std::io::Error::new(crate::gen::error_kind((self.pos + self.data.len()) as u8), "the remote fails"));
        }
        let mut n = buf.len().min(self.step.max(1)).min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Feed {
    data: Data,
    /// sizes of the buffers of the consumer
    sizes: Vec<u16>,
    step: u16,
    interrupts: bool,
    end: End,
}

fn feed(end: impl Strategy<Value = End>) -> impl Strategy<Value = Feed> {
    (
        data(),
        proptest::collection::vec(prop_oneof![1 => Just(0u16), 3 => 1u16..20, 3 => 20u16..9000], 1..4),
        prop_oneof![1u16..10, 10u16..9000],
        proptest::bool::weighted(0.2),
        end,
    )
        .prop_map(|(data, sizes, step, interrupts, end)| Feed { data, sizes, step, interrupts, end })
}

fn end() -> impl Strategy<Value = End> {
    prop_oneof![
        6 => Just(End::Full),
        2 => (0u16..1001).prop_map(End::Early),
        1 => Just(End::Exact),
        2 => (0u16..1001).prop_map(End::Fails),
        1 => (0u16..1001).prop_map(End::Resumes),
        1 => (0u16..1001).prop_map(End::Drops),
        2 => (0u16..1001).prop_map(End::Dies),
        1 => Just(End::DiesAfter),
    ]
}

/// What the cache may hold for an entry.
#[derive(Clone, Debug, Default, PartialEq)]
struct Slot {
    /// none is allowed
    none: bool,
    /// a failure is allowed
    broken: bool,
    /// complete contents that are allowed
    full: Vec<Vec<u8>>,
}

impl Slot {
    fn empty() -> Slot {
        Slot { none: true, ..Default::default() }
    }
    fn holds(data: Vec<u8>) -> Slot {
        Slot { full: vec![data], ..Default::default() }
    }
}

fn cut(n: u16, len: usize) -> usize {
    len * n as usize / 1000
}

/// Consume a reader as told; the new state of the entry.
fn consume<R: Read>(mut reader: R, f: &Feed, data: &[u8]) -> Result<Slot, String> {
    let mut got: Vec<u8> = vec![];
    let limit = match f.end {
        End::Early(n) | End::Dies(n) => cut(n, data.len()),
        End::Exact => data.len(),
        _ => usize::MAX,
    };
    let mut ended = false;
    let mut failures = 0;
    let mut i = 0;
    // a list of zero sizes would never end
    let sizes: Vec<usize> = f.sizes.iter().map(|s| *s as usize).chain([7]).collect();
    while got.len() < limit {
        let size = sizes[i % sizes.len()].min(limit - got.len());
        i += 1;
        let mut buf = vec![0x55; size];
        match reader.read(&mut buf) {
            Ok(0) if size > 0 => {
                ended = true;
                break;
            }
            Ok(n) => {
                ensure!(n <= size, "a read of {} bytes returns {}", size, n);
                got.extend(&buf[..n]);
                ensure!(data.starts_with(&got), "the consumer gets other bytes than the remote ones after {} bytes", got.len() - n);
            }
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(_) => {
                failures += 1;
                if let End::Fails(_) = f.end {
                    break;
                }
                if failures > 2 && matches!(f.end, End::Resumes(_) | End::Drops(_)) {
                    break;
                }
                ensure!(failures < 3, "the reader keeps on failing");
            }
        }
    }
    let at = match f.end {
        End::Fails(n) | End::Resumes(n) | End::Drops(n) => Some(cut(n, data.len())),
        _ => None,
    };
    if let Some(at) = at {
        ensure!(failures > 0, "the failure of the remote at byte {} is not reported", at);
        if let End::Fails(_) | End::Drops(_) = f.end {
            ensure!(got.len() == at, "the consumer gets {} bytes before the failure instead of {}", got.len(), at);
        }
    } else {
        ensure!(failures == 0, "the reader fails");
    }
    if ended {
        ensure!(got == data || matches!(f.end, End::Drops(_)), "the consumer gets {} bytes out of {}", got.len(), data.len());
        // reading after the end
        let again = reader.read(&mut [0u8; 8]).map_err(|e| format!("a read after the end fails: {}", e))?;
        ensure!(again == 0, "a read after the end gives {} bytes", again);
    }
    let full = || Slot::holds(data.to_vec());
    Ok(match f.end {
        End::Full => full(),
        End::DiesAfter => {
            std::mem::forget(reader);
            full()
        }
        End::Early(_) | End::Exact if got.len() == data.len() => Slot { none: true, ..full() },
        End::Early(_) | End::Exact => Slot::empty(),
        End::Fails(_) => Slot::empty(),
        End::Drops(_) if got.len() < data.len() => Slot::empty(),
        End::Resumes(_) | End::Drops(_) => Slot { none: true, ..full() },
        End::Dies(_) => {
            std::mem::forget(reader);
            let mut s = Slot { none: true, broken: true, full: vec![] };
            if got.len() == data.len() {
                s.full.push(data.to_vec());
            }
            s
        }
    })
}

/// Look an entry up; its state is then known better.
fn lookup(cache: &Cache, base: &Url, path: &Url, slot: &mut Slot) -> Check {
    let name = format!("{} of {}", path, base);
    match cache.remote_get(base, path) {
        None => {
            ensure!(slot.none, "{} is lost", name);
            *slot = Slot::empty();
        }
        Some(Err(e)) => ensure!(slot.broken, "{} can't be opened: {}", name, e),
        Some(Ok(mut r)) => {
            let mut got = vec![];
            match r.read_to_end(&mut got) {
                Ok(_) => {
                    ensure!(slot.full.contains(&got), "{} gives {} bytes {} that are not what was stored ({})", name, got.len(), short(&got), short(&slot.full));
                    *slot = Slot::holds(got);
                }
                Err(e) => ensure!(slot.broken, "{} can't be read: {}", name, e),
            }
        }
    }
    Ok(())
}

fn remote(f: &Feed, data: &[u8]) -> Remote {
    Remote {
        data: data.to_vec(),
        pos: 0,
        step: f.step as usize,
        fail_at: match f.end {
            End::Fails(n) | End::Resumes(n) | End::Drops(n) => Some(cut(n, data.len())),
            _ => None,
        },
        drops: matches!(f.end, End::Drops(_)),
        interrupts: f.interrupts,
        n: 0,
    }
}

/// Store an entry.
fn store(cache: &Cache, base: &Url, path: &Url, f: &Feed, slot: &mut Slot) -> Check {
    let bytes = f.data.bytes();
    match cache.remote_add(base, path, remote(f, &bytes)) {
        Err(e) => {
            ensure!(!(slot.none && slot.full.is_empty() && !slot.broken), "{} of {} can't be stored: {}", path, base, e);
            Ok(())
        }
        Ok(reader) => {
            ensure!(slot.none || slot.broken, "{} of {} is stored again", path, base);
            let old = std::mem::replace(slot, Slot::empty());
            let new = consume(reader, f, &bytes)?;
            *slot = new;
            if slot.none || slot.broken {
                // what was there may remain
                slot.broken |= old.broken;
                slot.full.extend(old.full);
            }
            Ok(())
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add { base: u8, url: u8, feed: Feed },
    /// two downloads of the same url at once; the second begins before the first ends
    Twice { base: u8, url: u8, a: Feed, b: Feed },
    Get { base: u8, url: u8 },
    Drop { base: u8, url: u8 },
    ListAdd { url: u8, n: u16, seed: u8 },
    ListGet { url: u8 },
    ListDrop { url: u8 },
    HeadSet { base: u8, url: u8, ok: bool },
    Head { base: u8, url: u8 },
    Reopen,
    /// time passes: days
    Age(u16),
}

fn op() -> impl Strategy<Value = Op> {
    // a few bases and urls, so that they meet
    let b = || 0u8..4;
    let u = || prop_oneof![3 => 2u8..6, 1 => 0u8..14];
    prop_oneof![
        6 => (b(), u(), feed(end())).prop_map(|(base, url, feed)| Op::Add { base, url, feed }),
        1 => (b(), u(), feed(Just(End::Full)), feed(Just(End::Full))).prop_map(|(base, url, a, b)| Op::Twice { base, url, a, b }),
        4 => (b(), u()).prop_map(|(base, url)| Op::Get { base, url }),
        3 => (b(), u()).prop_map(|(base, url)| Op::Drop { base, url }),
        2 => (u(), prop_oneof![30 => 0u16..6, 10 => 0u16..600, 1 => 600u16..6000], any::<u8>()).prop_map(|(url, n, seed)| Op::ListAdd { url, n, seed }),
        2 => u().prop_map(|url| Op::ListGet { url }),
        1 => u().prop_map(|url| Op::ListDrop { url }),
        2 => (b(), u(), any::<bool>()).prop_map(|(base, url, ok)| Op::HeadSet { base, url, ok }),
        2 => (b(), u()).prop_map(|(base, url)| Op::Head { base, url }),
        1 => Just(Op::Reopen),
        1 => (0u16..5000).prop_map(Op::Age),
    ]
}

fn listing(u: &Url, n: u16, seed: u8) -> Vec<Url> {
    (0..n).map(|i| u.join(&format!("d{}/f-{}-{}.log", i % 7, i, seed)).unwrap()).collect()
}

fn new_cache(dir: &Path) -> Result<Cache, String> {
    std::env::set_var("XDG_CACHE_HOME", dir);
    Cache::new().map_err(|e| format!("no cache: {}", e))
}

type Key = (String, String);

fn key(a: &Url, b: &Url) -> Key {
    (a.to_string(), b.to_string())
}

/// Make the files look old.
fn age(dir: &Path, days: u16) {
    let old = std::time::SystemTime::now() - std::time::Duration::from_secs(days as u64 * 86_400);
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.path().is_dir() {
            age(&e.path(), days);
        } else if let Ok(f) = std::fs::File::open(e.path()) {
            let _ = f.set_modified(old);
        }
    }
}

fn check_ops(ops: &[Op], dir: &Path, info: &mut Info) -> Check {
    let mut cache = new_cache(dir)?;
    let mut slots: HashMap<Key, Slot> = HashMap::new();
    let mut lists: HashMap<String, Vec<Url>> = HashMap::new();
    let mut heads: HashMap<Key, bool> = HashMap::new();
    let mut hits = 0;
    for (i, op) in ops.iter().enumerate() {
        let at = |e: String| format!("step {} ({}): {}", i, short(op), e);
        match op {
            Op::Add { base, url: u, feed } => {
                let (b, u) = (url(*base), url(*u));
                let slot = slots.entry(key(&b, &u)).or_insert_with(Slot::empty);
                store(&cache, &b, &u, feed, slot).map_err(at)?;
            }
            Op::Twice { base, url: u, a, b } => {
                let (base, u) = (url(*base), url(*u));
                let slot = slots.entry(key(&base, &u)).or_insert_with(Slot::empty);
                if *slot != Slot::empty() {
                    continue;
                }
                let (da, db) = (a.data.bytes(), b.data.bytes());
                let first = cache.remote_add(&base, &u, remote(a, &da)).map_err(|e| at(e.to_string()))?;
                // a second one may be refused
                match cache.remote_add(&base, &u, remote(b, &db)) {
                    Err(_) => *slot = consume(first, a, &da).map_err(at)?,
                    Ok(second) => {
                        consume(second, b, &db).map_err(at)?;
                        let mut got = vec![];
                        let mut first = first;
                        let res = first.read_to_end(&mut got);
                        if res.is_ok() {
                            ensure!(got == da, "{}", at("the first consumer gets other bytes than the remote ones".into()));
                        }
                        *slot = Slot { none: false, broken: false, full: vec![da, db] };
                    }
                }
                info.label("two downloads at once");
            }
            Op::Get { base, url: u } => {
                let (b, u) = (url(*base), url(*u));
                let slot = slots.entry(key(&b, &u)).or_insert_with(Slot::empty);
                lookup(&cache, &b, &u, slot).map_err(at)?;
            }
            Op::Drop { base, url: u } => {
                let (b, u) = (url(*base), url(*u));
                cache.remote_drop(&b, &u).map_err(|e| at(format!("{:?}", e)))?;
                slots.insert(key(&b, &u), Slot::empty());
                lookup(&cache, &b, &u, &mut Slot::empty()).map_err(at)?;
            }
            Op::ListAdd { url: u, n, seed } => {
                let u = url(*u);
                let l = listing(&u, *n, *seed);
                match (cache.httpdir_add(&u, &l), lists.get(u.as_str())) {
                    (Ok(()), None) => {
                        lists.insert(u.to_string(), l);
                    }
                    (Err(_), Some(_)) => {}
                    (r, known) => return Err(at(format!("adding a listing when there {} gives {:?}", if known.is_some() { "is one" } else { "is none" }, r))),
                }
            }
            Op::ListGet { url: u } => check_list(&cache, &url(*u), &lists).map_err(at)?,
            Op::ListDrop { url: u } => {
                let u = url(*u);
                cache.httpdir_drop(&u).map_err(|e| at(format!("{:?}", e)))?;
                lists.remove(u.as_str());
            }
            Op::HeadSet { base, url: u, ok } => {
                let (b, u) = (url(*base), url(*u));
                match heads.get(&key(&b, &u)) {
                    None => {
                        let r = cache.head_set(&b, &u, *ok).map_err(|e| at(format!("{:?}", e)))?;
                        ensure!(r == *ok, "{}", at(format!("the result is {}", r)));
                        heads.insert(key(&b, &u), *ok);
                    }
                    Some(old) if old == ok => ensure!(cache.head_set(&b, &u, *ok).is_err(), "{}", at("stored again".into())),
                    _ => {}
                }
            }
            Op::Head { base, url: u } => {
                let (b, u) = (url(*base), url(*u));
                let (got, want) = (cache.head(&b, &u), heads.get(&key(&b, &u)).copied());
                ensure!(got == want, "{}", at(format!("{:?} instead of {:?}", got, want)));
            }
            Op::Reopen => cache = new_cache(dir)?,
            Op::Age(days) => {
                info.label("time passes");
                age(dir, *days)
            }
        }
    }
    // at the end everything is looked up
    for b in 0..URLS.len() as u8 {
        check_list(&cache, &url(b), &lists)?;
        for u in 0..URLS.len() as u8 {
            let (b, u) = (url(b), url(u));
            let mut s = slots.get(&key(&b, &u)).cloned().unwrap_or_else(Slot::empty);
            lookup(&cache, &b, &u, &mut s).map_err(|e| format!("at the end: {}", e))?;
            hits += usize::from(!s.full.is_empty());
            let (got, want) = (cache.head(&b, &u), heads.get(&key(&b, &u)).copied());
            ensure!(got == want, "the availability of {} of {} is {:?} instead of {:?}", u, b, got, want);
        }
    }
    info.nontrivial_if(hits >= 2);
    info.label_if(!lists.is_empty(), "listings");
    Ok(())
}

fn check_list(cache: &Cache, u: &Url, lists: &HashMap<String, Vec<Url>>) -> Check {
    let got = match cache.httpdir_get(u) {
        None => None,
        Some(Ok(l)) => Some(l),
        Some(Err(e)) => return Err(format!("the listing of {} can't be read: {:?}", u, e)),
    };
    ensure!(got.as_ref() == lists.get(u.as_str()), "the listing of {} is {} instead of {}", u, short(&got), short(lists.get(u.as_str())));
    Ok(())
}

fn c22(r: &mut Runner) {
    let scratch = r.scratch.clone();
    r.sub(
        "history",
        "histories of 1-30 operations (downloads read to the end, in part, failing, resumed or dying; lookups, drops, listings of up to 6000 urls, availabilities, new handles, years that pass, two downloads at once) over 14 urls that are easily mixed up, as base and as entry; every answer is compared with a map, and at the end every combination is looked up; non-trivial: two entries with content at the end",
        r.cases(16_000, 200_000),
        || proptest::collection::vec(op(), 1..30),
        |ops, info| {
            let dir = case_dir(&scratch);
            check_ops(ops, dir.path(), info)
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "threads",
        "2-4 threads store and read back different urls of the same base at the same time, through their own handles; each gets its own content; non-trivial: always",
        r.cases(800, 10_000),
        || proptest::collection::vec(proptest::collection::vec(feed(Just(End::Full)), 1..5), 2..5),
        |threads, info| {
            info.nontrivial();
            let dir = case_dir(&scratch);
            let _ = new_cache(dir.path())?;
            let base = Url::parse("http://localhost/builds/").unwrap();
            std::thread::scope(|s| {
                let hs: Vec<_> = threads
                    .iter()
                    .enumerate()
                    .map(|(t, feeds)| {
                        let base = &base;
                        s.spawn(move || -> Check {
                            let cache = Cache::new().map_err(|e| e.to_string())?;
                            for (i, f) in feeds.iter().enumerate() {
                                let u = base.join(&format!("{}-{}", t, i)).unwrap();
                                let mut slot = Slot::empty();
                                store(&cache, base, &u, f, &mut slot)?;
                                lookup(&cache, base, &u, &mut slot)?;
                            }
                            for (i, f) in feeds.iter().enumerate() {
                                let u = base.join(&format!("{}-{}", t, i)).unwrap();
                                lookup(&cache, base, &u, &mut Slot::holds(f.data.bytes()))?;
                            }
                            Ok(())
                        })
                    })
                    .collect();
                hs.into_iter().try_for_each(|h| h.join().unwrap_or_else(|_| Err("a thread panics".into())))
            })
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Interrupted {
    first: Feed,
    /// the state is looked up before the next download
    look: bool,
    second: Feed,
    third: Option<Feed>,
}

fn retry_allowed(f: &Feed) -> bool {
    !matches!(f.end, End::Dies(_))
}

fn check_interrupted(c: &Interrupted, dir: &Path, info: &mut Info) -> Check {
    let (base, path) = (url(2), url(3));
    let cache = new_cache(dir)?;
    let mut slot = Slot::empty();
    let mut died = false;
    let feeds = [Some(&c.first), Some(&c.second), c.third.as_ref()];
    for (i, f) in feeds.into_iter().flatten().enumerate() {
        let mut f = f.clone();
        if i > 0 {
            // the content of a url does not change
            f.data = c.first.data.clone();
        }
        let before = slot.clone();
        let bytes = f.data.bytes();
        match cache.remote_add(&base, &path, remote(&f, &bytes)) {
            Err(e) => ensure!(died || !before.full.is_empty(), "download {}: can't store again after an interruption: {}", i, e),
            Ok(reader) => {
                slot = consume(reader, &f, &bytes).map_err(|e| format!("download {}: {}", i, e))?;
                if slot.none || slot.broken {
                    slot.broken |= before.broken;
                    slot.full.extend(before.full);
                }
            }
        }
        died |= !retry_allowed(&f);
        if c.look || i > 0 {
            lookup(&cache, &base, &path, &mut slot).map_err(|e| format!("after download {}: {}", i, e))?;
        }
    }
    info.nontrivial_if(!matches!(c.first.end, End::Full | End::DiesAfter));
    info.label(match c.first.end {
        End::Full | End::DiesAfter => "complete",
        End::Early(_) | End::Exact => "stopped",
        End::Fails(_) | End::Resumes(_) | End::Drops(_) => "remote failure",
        End::Dies(_) => "death",
    });
    lookup(&cache, &base, &path, &mut slot)
}

/// Several downloads of the same url at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Together {
    data: Data,
    step: u16,
    /// full, stopped or failing at, per mille
    ends: Vec<(u8, u16)>,
    /// which one reads how many bytes
    schedule: Vec<(u8, u16)>,
    /// a completed reader lives until the end
    keep: bool,
}

fn files_below(dir: &Path) -> Vec<std::path::PathBuf> {
    walkdir(dir).into_iter().filter(|p| p.is_file()).collect()
}

fn walkdir(dir: &Path) -> Vec<std::path::PathBuf> {
    let mut out = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        out.push(e.path());
        if e.path().is_dir() {
            out.extend(walkdir(&e.path()));
        }
    }
    out
}

fn check_together(c: &Together, dir: &Path, info: &mut Info) -> Check {
    let (base, path) = (url(2), url(3));
    let cache = new_cache(dir)?;
    let bytes = c.data.bytes();
    let mut readers = vec![];
    for (how, n) in &c.ends {
        let at = cut(*n, bytes.len());
        let r = Remote { data: bytes.clone(), pos: 0, step: c.step as usize, fail_at: (*how % 3 == 2).then_some(at), drops: false, interrupts: false, n: 0 };
        let r = cache.remote_add(&base, &path, r).map_err(|e| format!("can't store: {}", e))?;
        readers.push((Some(r), vec![], if *how % 3 == 1 { at } else { usize::MAX }));
    }
    let n = readers.len();
    let mut slot = Slot::empty();
    let mut stopped = 0;
    let mut complete = false;
    let rest = (0..n as u8).flat_map(|i| std::iter::repeat((i, 700u16)).take(bytes.len() + 3));
    for (i, size) in c.schedule.iter().map(|(i, s)| (*i, *s)).chain(rest) {
        let i = i as usize % n;
        let (reader, got, limit) = &mut readers[i];
        let Some(r) = reader.as_mut() else { continue };
        let size = (size as usize).max(1).min(limit.saturating_sub(got.len()));
        let mut buf = vec![0u8; size];
        let gone = if size == 0 {
            stopped += 1;
            true
        } else {
            match r.read(&mut buf) {
                Ok(0) => {
                    ensure!(*got == bytes, "consumer {} gets {} bytes of {}", i, got.len(), bytes.len());
                    slot = Slot::holds(bytes.clone());
                    complete = true;
                    !c.keep
                }
                Ok(k) => {
                    got.extend(&buf[..k]);
                    ensure!(bytes.starts_with(got), "consumer {} gets other bytes", i);
                    false
                }
                Err(_) => {
                    stopped += 1;
                    true
                }
            }
        };
        if gone {
            *reader = None;
            lookup(&cache, &base, &path, &mut slot).map_err(|e| format!("after consumer {}: {}", i, e))?;
        }
    }
    drop(readers);
    info.nontrivial_if(stopped > 0 && complete);
    info.label_if(complete, "complete");
    lookup(&cache, &base, &path, &mut slot)?;
    if !complete {
        let left = files_below(dir);
        ensure!(left.is_empty(), "nothing was downloaded in full and {:?} is left", left[0].file_name());
    }
    Ok(())
}

/// The disk is full at some point of the local copy; whatever happens, no truncated entry is served.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Disk {
    feed: Feed,
    room: u16,
    carry_on: bool,
}

fn check_disk(c: &Disk, dir: &Path, info: &mut Info) -> Check {
    let (base, path) = (url(2), url(3));
    let cache = new_cache(dir)?;
    let mut f = c.feed.clone();
    f.end = End::Full;
    let bytes = f.data.bytes();
    // the directory exists before the disk is full
    let other = Feed { data: Data { len: 3, kind: 0, seed: 0 }, sizes: vec![10], step: 10, interrupts: false, end: End::Full };
    store(&cache, &base, &url(4), &other, &mut Slot::empty())?;
    let room = bytes.len() as u64 * c.room as u64 / 1000;
    let mut reader = cache.remote_add(&base, &path, remote(&f, &bytes)).map_err(|e| e.to_string())?;
    let mut got: Vec<u8> = vec![];
    let mut failed = false;
    with_file_limit(room, || {
        let mut buf = [0u8; 512];
        for _ in 0..3 * bytes.len() + 1000 {
            match reader.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => got.extend(&buf[..n]),
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => {
                    failed = true;
                    if !c.carry_on {
                        break;
                    }
                }
            }
        }
    });
    drop(reader);
    ensure!(failed || got == bytes, "the consumer gets {} bytes of {} without error", got.len(), bytes.len());
    info.nontrivial_if(failed || cache.remote_get(&base, &path).is_none());
    info.label_if(failed, "failed");
    let mut slot = Slot { none: true, broken: true, full: vec![bytes] };
    lookup(&cache, &base, &path, &mut slot)?;
    lookup(&cache, &base, &url(4), &mut Slot::holds(other.data.bytes()))
}

/// The disk is full while a listing is stored, then it is not any more.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DiskList {
    names: Vec<String>,
    /// the disk ends that many bytes into the listing, one after another
    rooms: Vec<u16>,
    look: bool,
}

fn check_disk_list(c: &DiskList, dir: &Path, info: &mut Info) -> Check {
    let cache = new_cache(dir)?;
    let u = url(2);
    let list: Vec<Url> = c.names.iter().map(|n| u.join(n).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
    let none = HashMap::new();
    let all = HashMap::from([(u.to_string(), list.clone())]);
    // the directory exists before the disk is full
    cache.httpdir_add(&url(4), &list).map_err(|e| e.to_string())?;
    let mut stored = false;
    for room in &c.rooms {
        let res = with_file_limit(*room as u64, || cache.httpdir_add(&u, &list));
        ensure!(!(stored && res.is_ok()), "stored again");
        stored |= res.is_ok();
        info.nontrivial_if(!stored);
        if c.look {
            check_list(&cache, &u, if stored { &all } else { &none }).map_err(|e| format!("after {:?}: {}", res, e))?;
        }
    }
    if !stored {
        cache.httpdir_add(&u, &list).map_err(|e| format!("can't store after a failure: {:?}", e))?;
    }
    check_list(&cache, &u, &all)?;
    check_list(&cache, &url(4), &HashMap::from([(url(4).to_string(), list)]))
}

fn c23(r: &mut Runner) {
    // every interruption point of small contents
    let mut all = vec![];
    for len in [0u32, 1, 5, 23] {
        for at in 0..=len {
            let n = if len == 0 { 0 } else { (at * 1000).div_ceil(len) as u16 };
            for end in [End::Early(n), End::Fails(n), End::Resumes(n), End::Drops(n), End::Dies(n)] {
                for sizes in [vec![1u16], vec![4], vec![64], vec![0, 3]] {
                    for step in [1u16, 5, 100] {
                        let first = Feed { data: Data { len, kind: 1, seed: 7 }, sizes: sizes.clone(), step, interrupts: false, end: end.clone() };
                        let second = Feed { end: End::Full, ..first.clone() };
                        all.push(Interrupted { first, look: (at + step as u32) % 2 == 0, second, third: None });
                    }
                }
            }
        }
    }
    let scratch = r.scratch.clone();
    r.enumerate(
        "points",
        "contents of 0, 1, 5 and 23 bytes, interrupted at every byte by the consumer, the remote or the death of the process, with several buffer and delivery sizes, then downloaded again; non-trivial: interrupted",
        all,
        |c, info| {
            let dir = case_dir(&scratch);
            check_interrupted(c, dir.path(), info)
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "interrupted",
        "two or three downloads of a url, interrupted or not, with or without lookups between them; an interrupted content is never served, and except after the death of the process it can be stored again; non-trivial: the first is interrupted",
        r.cases(24_000, 300_000),
        || (feed(end()), any::<bool>(), feed(end()), proptest::option::of(feed(end()))).prop_map(|(first, look, second, third)| Interrupted { first, look, second, third }),
        |c, info| {
            let dir = case_dir(&scratch);
            check_interrupted(c, dir.path(), info)
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "together",
        "one to thirteen downloads of the same url that take place at the same time, read in turns and each completed, stopped or failing at any point: once one is complete the whole content is served, before that nothing is, and without any nothing is left on the disk; non-trivial: one is complete and another one is not",
        r.cases(12_000, 150_000),
        || {
            (data(), 1u16..9000, prop_oneof![3 => proptest::collection::vec((0u8..3, 0u16..1001), 1..4), 1 => proptest::collection::vec((0u8..3, 0u16..1001), 4..14)], proptest::collection::vec((any::<u8>(), prop_oneof![1u16..30, 1u16..9000]), 0..30), any::<bool>())
                .prop_map(|(data, step, ends, schedule, keep)| Together { data, step, ends, schedule, keep })
        },
        |c, info| {
            let dir = case_dir(&scratch);
            check_together(c, dir.path(), info)
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "disk",
        "the local copy cannot grow beyond a generated size; the consumer gets an error or all the bytes, whether or not it carries on, and a truncated entry is never served; non-trivial: the limit is hit",
        r.cases(6_000, 60_000),
        || (feed(Just(End::Full)), 0u16..1200, any::<bool>()).prop_map(|(feed, room, carry_on)| Disk { feed, room, carry_on }),
        |c, info| {
            let dir = case_dir(&scratch);
            check_disk(c, dir.path(), info)
        },
    );
    let scratch = r.scratch.clone();
    r.sub(
        "listing",
        "a listing of 0-40 urls is stored while the disk has room for a part of it, up to three times, and then with enough room: a failed attempt leaves nothing that is found, the listing can be stored afterwards and is then given back, and the other listing is intact; non-trivial: a failed attempt",
        r.cases(6_000, 60_000),
        || {
            (proptest::collection::vec("[a-z]{1,12}(/|\\.txt|\\.log)?", 0..40), proptest::collection::vec(prop_oneof![0u16..200, 0u16..2500], 1..4), any::<bool>())
                .prop_map(|(names, rooms, look)| DiskList { names, rooms, look })
        },
        |c, info| {
            let dir = case_dir(&scratch);
            check_disk_list(c, dir.path(), info)
        },
    );
}
