//! C07-C08: the index.
use crate::engine::*;
use crate::{ensure, prop, Prop};
use logreduce_index::*;
use proptest::prelude::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C07", "exploration", c07, &["the 480 words of the vocabulary do not collide in the hashed space"]),
        prop("C08", "exploration", c08, &[]),
    ]
}

const TOL: f32 = 1e-4;

const WORDS: u16 = 480;

fn word(i: u16) -> String {
    // distinct words of various lengths, among them prefixes of one another
    let i = (i % WORDS) as usize;
    let stem = [
        "alpha", "connection", "x", "the", "kernel", "Node", "%ID", "été", "volume-attach", "a_b", "Zuul", "error", "systemd%PID", "/dev/", "N.N", "b",
        "ALPHA", "longer-than-the-thirty-two-chars-of-big-and-than-many-limits-that-one-could-think-of-for-the-length-of-a-single-word-in-a-log-line-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789", "0", "日本",
    ][i % 20];
    let suffix = ["", "s", "ing", "%EQ", "/", "2", "Error", "__", "é", "a", "b", "c", "%A", "%B", "%C", "%D", "-", "|", ".", "th", "x", "xx", "N", "\t"][i / 20];
    format!("{}{}", stem, suffix)
}

#[test]
fn vocabulary_does_not_collide() {
    for i in 0..WORDS {
        let m = index(&mut std::iter::once(word(i)));
        for j in 0..i {
            assert!(search(&m, &word(j)) == 1.0, "{} {}", word(i), word(j));
        }
    }
}

fn words_line(max: usize) -> impl Strategy<Value = Vec<u16>> {
    prop_oneof![proptest::collection::vec(0u16..24, 1..max), proptest::collection::vec(0u16..WORDS, 1..max)]
}

fn text(v: &[u16]) -> String {
    v.iter().map(|i| word(*i)).collect::<Vec<_>>().join(" ")
}

fn set(v: &[u16]) -> BTreeSet<u16> {
    v.iter().map(|i| i % WORDS).collect()
}

fn reference(baseline: &[Vec<u16>], target: &[u16]) -> f32 {
    let t = set(target);
    let best = baseline
        .iter()
        .map(|b| {
            let b = set(b);
            b.intersection(&t).count() as f64 / ((b.len() * t.len()) as f64).sqrt()
        })
        .fold(0.0, f64::max);
    (1.0 - best) as f32
}

fn search_per_line(baseline: &[String], targets: &[String]) -> Vec<f32> {
    let m = index(&mut baseline.iter().cloned());
    targets.iter().map(|t| search(&m, t)).collect()
}

/// Targets related to the baseline: a line of it shuffled, repeated, extended or cut, or a new line.
fn corpus(max_lines: usize) -> impl Strategy<Value = (Vec<Vec<u16>>, Vec<Vec<u16>>)> {
    proptest::collection::vec(words_line(12), 0..max_lines).prop_flat_map(|b| {
        let b2 = b.clone();
        (
            Just(b),
            proptest::collection::vec((words_line(12), any::<u16>(), 0u8..6), 0..10).prop_map(move |v| {
                v.into_iter()
                    .map(|(new, at, how)| {
                        if b2.is_empty() {
                            return new;
                        }
                        let mut l = b2[at as usize % b2.len()].clone();
                        match how {
                            0 => return new,
                            1 => l.reverse(),
                            2 => l.extend(l.clone()),
                            3 => l.extend(new),
                            4 => l.truncate(l.len().div_ceil(2)),
                            _ => {}
                        }
                        l
                    })
                    .collect()
            }),
        )
    })
}

/// Pairs of words that share a place in the hashed space, with the same or the opposite sign.
const COLLIDING: [&str; 24] = [
    "vv66", "hjndtgk", "g1lra7", "fue908p", "5bex", "zocnfiis", "06gc", "466mkh", "qegn", "my7z0aq", "b8tqo", "fwamo", "vxdml", "1l1l1", "bvtg", "euzge", "871gr",
    "enzw8", "d93v", "26tn", "3cwc4", "gwa5i", "dte3", "x1tvm",
];

fn c07(r: &mut Runner) {
    r.sub(
        "cosine",
        "baselines of 0-40 lines over 480 words (with repetitions) and targets derived from them (shuffled, repeated, extended, cut) or new; the distance of every implementation must be one minus the best set cosine, within 1e-4; non-trivial: a distance strictly between 0 and 1",
        r.cases(48_000, 800_000),
        || corpus(40),
        |(b, t), info| {
            let bs: Vec<String> = b.iter().map(|l| text(l)).collect();
            let ts: Vec<String> = t.iter().map(|l| text(l)).collect();
            let per_line = search_per_line(&bs, &ts);
            let mat = search_mat(&index_mat(&bs), &ts);
            let chunk = search_mat_chunk(&[index_mat(&bs)], &ts);
            for (name, got) in [("search", &per_line), ("search_mat", &mat), ("search_mat_chunk", &chunk)] {
                ensure!(got.len() == ts.len(), "{} gives {} distances for {} targets", name, got.len(), ts.len());
                for (i, d) in got.iter().enumerate() {
                    let want = reference(b, &t[i]);
                    info.nontrivial_if(want > TOL && want < 1.0 - TOL);
                    info.label_if(want < TOL, "distance 0");
                    info.label_if(want > 1.0 - TOL, "distance 1");
                    ensure!(d.is_finite() && *d >= -1e-5 && *d <= 1.0 + 1e-5, "{}: distance {} is out of range", name, d);
                    ensure!((d - want).abs() <= TOL, "{}: the distance of {:?} is {} instead of {}", name, ts[i], d, want);
                }
            }
            Ok(())
        },
    );
    r.sub(
        "laws",
        "a target line with its words shuffled and repeated has the same distance; a line of the baseline has distance 0; an empty baseline or one without common word gives 1; lines of up to 300 words; non-trivial: at least 20 words",
        r.cases(48_000, 800_000),
        || (words_line(300), words_line(40), any::<u64>(), 0usize..4),
        |(l, other, salt, extra), info| {
            info.nontrivial_if(l.len() >= 20);
            let mut shuffled: Vec<u16> = l.clone();
            for i in 0..*extra {
                shuffled.push(l[mix(salt ^ i as u64) as usize % l.len()]);
            }
            shuffled.sort_by_key(|w| mix(salt ^ *w as u64));
            let (line, shuffled, other) = (text(l), text(&shuffled), text(other));
            let base = index(&mut vec![other.clone(), line.clone()].into_iter());
            let base_mat = index_mat(&[other.clone(), line.clone()]);
            for (name, d) in [
                ("search", search(&base, &shuffled)),
                ("search_mat", search_mat(&base_mat, std::slice::from_ref(&shuffled))[0]),
                ("search_mat_chunk", search_mat_chunk(&[base_mat], std::slice::from_ref(&shuffled))[0]),
            ] {
                ensure!(d.abs() <= TOL, "{}: {:?} is in the baseline and has distance {}", name, shuffled, d);
            }
            let d1 = search(&index(&mut std::iter::once(other.clone())), &line);
            let d2 = search(&index(&mut std::iter::once(other.clone())), &shuffled);
            ensure!((d1 - d2).abs() <= TOL, "word order or repetition matters: {} and {}", d1, d2);
            ensure!(search(&[], &line) == 1.0, "empty baseline");
            ensure!(search_mat(&index_mat(&[]), std::slice::from_ref(&line)) == vec![1.0], "empty baseline matrix");
            ensure!(search_mat_chunk(&[], std::slice::from_ref(&line)) == vec![1.0], "no chunk");
            let none = "nothing shared";
            ensure!(search(&index(&mut std::iter::once(none.to_string())), &line) == 1.0, "no shared word");
            Ok(())
        },
    );
    r.sub(
        "long",
        "lines of up to 2400 distinct short words, as the longest lines the reader lets through hold; targets made of a part of a baseline line, repeated words and other words; the distance must be one minus the best set cosine, within 0.02 (plus four words) as some of that many words share a place in the hashed space, and the implementations must agree within 1e-4; non-trivial: a line of more than 256 distinct words and a distance strictly between 0 and 1",
        r.cases(2400, 40_000),
        || {
            let w = || 0u32..12_000;
            let len = || prop_oneof![1u32..300, 250u32..2400];
            (proptest::collection::vec((w(), len()), 1..5), proptest::collection::vec((0usize..5, 0u32..101, w(), 0u32..600), 1..5), any::<u64>())
        },
        |(b, t, salt), info| {
            let name = |i: u32| -> String {
                let i = i % 14_500;
                [i % 26, i / 26 % 26, i / 676].iter().map(|d| (b'a' + *d as u8) as char).collect()
            };
            let bases: Vec<BTreeSet<u32>> = b.iter().map(|(at, len)| (*at..at + len).map(|i| i % 14_500).collect()).collect();
            let join = |l: &BTreeSet<u32>, salt: u64| {
                let mut v: Vec<u32> = l.iter().copied().collect();
                v.sort_by_key(|w| mix(salt ^ *w as u64));
                v.iter().map(|w| name(*w)).collect::<Vec<_>>().join(" ")
            };
            let mut targets: Vec<BTreeSet<u32>> = t
                .iter()
                .map(|(at, part, other, n)| {
                    let base = &bases[at % bases.len()];
                    let mut l: BTreeSet<u32> = base.iter().copied().take(1 + base.len() * *part as usize / 101).collect();
                    l.extend((*other..other + n).map(|i| i % 14_500));
                    l
                })
                .collect();
            targets.extend(bases.clone());
            let bs: Vec<String> = bases.iter().map(|l| join(l, *salt)).collect();
            let ts: Vec<String> = targets.iter().map(|l| join(l, salt ^ 99)).collect();
            let per_line = search_per_line(&bs, &ts);
            let mat = search_mat(&index_mat(&bs), &ts);
            let split: Vec<_> = bs.chunks(1).map(index_mat).collect();
            let chunk = search_mat_chunk(&split, &ts);
            for (i, l) in targets.iter().enumerate() {
                let best = bases.iter().map(|b| b.intersection(l).count() as f64 / ((b.len() * l.len()) as f64).sqrt()).fold(0.0, f64::max);
                let want = (1.0 - best) as f32;
                let tol = 0.02 + 4.0 / (l.len().min(bases.iter().map(|b| b.len()).min().unwrap()) as f32);
                info.nontrivial_if(l.len() > 256 && want > 0.02 && want < 0.98);
                ensure!((per_line[i] - want).abs() <= tol, "the distance of a line of {} words is {} instead of {}", l.len(), per_line[i], want);
                ensure!((mat[i] - per_line[i]).abs() <= TOL && (chunk[i] - per_line[i]).abs() <= TOL, "the distances of a line of {} words are {}, {} and {}", l.len(), per_line[i], mat[i], chunk[i]);
            }
            Ok(())
        },
    );
    r.sub(
        "collisions",
        "lines with words that share a place in the hashed space: the distances of all implementations agree, lie between 0 and 1, and are 0 for a line of the baseline; non-trivial: a line with both words of a pair",
        r.cases(40_000, 600_000),
        || {
            let l = || proptest::collection::vec(0usize..30, 1..8);
            (proptest::collection::vec(l(), 1..6), proptest::collection::vec(l(), 1..6))
        },
        |(b, t), info| {
            let text = |l: &Vec<usize>| l.iter().map(|i| COLLIDING.get(*i).map(|s| s.to_string()).unwrap_or_else(|| word(*i as u16))).collect::<Vec<_>>().join(" ");
            info.nontrivial_if(b.iter().chain(t).any(|l| l.iter().any(|i| *i < 24 && l.contains(&(i ^ 1)))));
            let bs: Vec<String> = b.iter().map(text).collect();
            let mut ts: Vec<String> = t.iter().map(text).collect();
            ts.extend(bs.clone());
            let base = search_per_line(&bs, &ts);
            for (name, got) in [("search", base.clone()), ("search_mat", search_mat(&index_mat(&bs), &ts)), ("search_mat_chunk", search_mat_chunk(&[index_mat(&bs)], &ts))] {
                ensure!(got.len() == ts.len(), "{} gives {} distances for {} targets", name, got.len(), ts.len());
                for (i, d) in got.iter().enumerate() {
                    ensure!(d.is_finite() && *d >= -1e-5 && *d <= 1.0 + 1e-5, "{}: distance {} is out of range", name, d);
                    ensure!((d - base[i]).abs() <= TOL, "{}: the distance of {:?} is {} instead of {}", name, ts[i], d, base[i]);
                    ensure!(i < t.len() || *d <= TOL, "{}: {:?} is in the baseline and has distance {}", name, ts[i], d);
                }
            }
            Ok(())
        },
    );
}

fn any_line() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => words_line(12).prop_map(|v| text(&v)),
        1 => "[a-f ]{0,30}",
        1 => "\\PC{0,20}",
        1 => Just(String::new()),
    ]
}

fn c08(r: &mut Runner) {
    r.sub(
        "agree",
        "any baseline and target lines, any split of the baseline into chunks, a permutation and duplication of the baseline, any batching of the targets, a saved and reloaded matrix: the distances must agree within 1e-4, in target order; non-trivial: at least two chunks, two targets and a distance strictly between 0 and 1",
        r.cases(24_000, 800_000),
        || {
            (
                proptest::collection::vec(any_line(), 0..24),
                proptest::collection::vec(any_line(), 0..9),
                proptest::collection::vec(1usize..8, 0..8),
                any::<u64>(),
                1usize..5,
            )
        },
        |(b, t, cuts, salt, batch), info| {
            let base = search_per_line(b, t);
            let close = |name: &str, got: Vec<f32>| -> Check {
                ensure!(got.len() == t.len(), "{}: {} distances for {} targets", name, got.len(), t.len());
                for (i, (x, y)) in got.iter().zip(&base).enumerate() {
                    ensure!((x - y).abs() <= TOL, "{}: the distance of {:?} is {} instead of {}", name, t[i], x, y);
                }
                Ok(())
            };
            close("matrix", search_mat(&index_mat(b), t))?;
            let mut chunks = vec![];
            let mut rest = &b[..];
            for c in cuts {
                let (x, y) = rest.split_at((*c).min(rest.len()));
                chunks.push(index_mat(x));
                rest = y;
            }
            chunks.push(index_mat(rest));
            info.label_if(chunks.len() > 1, "several chunks");
            info.nontrivial_if(chunks.len() > 1 && t.len() > 1 && base.iter().any(|d| *d > TOL && *d < 1.0 - TOL));
            close("chunks", search_mat_chunk(&chunks, t))?;
            chunks.reverse();
            close("chunks in reverse order", search_mat_chunk(&chunks, t))?;
            let mut shuffled = b.clone();
            shuffled.extend(b.iter().enumerate().filter(|(i, _)| mix(salt ^ *i as u64) % 3 == 0).map(|(_, l)| l.clone()));
            let mut idx: Vec<usize> = (0..shuffled.len()).collect();
            idx.sort_by_key(|i| mix(salt ^ *i as u64));
            let shuffled: Vec<String> = idx.iter().map(|i| shuffled[*i].clone()).collect();
            close("reordered and duplicated baseline", search_mat(&index_mat(&shuffled), t))?;
            close("per line, reordered", search_per_line(&shuffled, t))?;
            let saved = save_mat(&index_mat(b));
            close("saved matrix", search_mat(&load_mat(&saved), t))?;
            let mut batched = vec![];
            for part in t.chunks(*batch) {
                batched.extend(search_mat_chunk(&chunks, part));
            }
            close("batched targets", batched)?;
            let mut rev: Vec<String> = t.clone();
            rev.reverse();
            let mut d = search_mat(&index_mat(b), &rev);
            d.reverse();
            close("targets in reverse order", d)
        },
    );
    r.sub(
        "monotone",
        "adding lines to a baseline, as more rows or as another chunk, never increases a distance (beyond rounding), and a line added has distance 0 if it has a word; non-trivial: a distance decreases",
        r.cases(24_000, 800_000),
        || {
            (
                proptest::collection::vec(any_line(), 0..12),
                proptest::collection::vec(any_line(), 1..12),
                proptest::collection::vec(any_line(), 1..6),
            )
        },
        |(b, extra, t), info| {
            let mut all = b.clone();
            all.extend(extra.clone());
            let before = search_mat(&index_mat(b), t);
            for (name, after) in [
                ("search_mat", search_mat(&index_mat(&all), t)),
                ("search_mat_chunk", search_mat_chunk(&[index_mat(b), index_mat(extra)], t)),
                ("search", search_per_line(&all, t)),
            ] {
                for (i, (x, y)) in after.iter().zip(&before).enumerate() {
                    info.nontrivial_if(x + TOL < *y);
                    ensure!(*x <= y + TOL, "{}: the distance of {:?} grew from {} to {}", name, t[i], y, x);
                }
            }
            let d = search_mat_chunk(&[index_mat(b), index_mat(extra)], extra);
            for (i, x) in d.iter().enumerate() {
                ensure!(x.abs() <= TOL, "{:?} is in the baseline and has distance {}", extra[i], x);
            }
            Ok(())
        },
    );
    r.sub(
        "many",
        "baselines of 400-1600 lines cut at 512 as the trainer does, 40 targets; compared with the per-line search; non-trivial: at least two chunks",
        r.cases(160, 4_000),
        || (400usize..1600, any::<u64>(), 1usize..600),
        |(n, salt, size), info| {
            let mk = |i: u64| -> String { (0..1 + mix(salt ^ i) % 9).map(|k| word((mix(salt ^ (i * 31 + k)) % WORDS as u64) as u16)).collect::<Vec<_>>().join(" ") };
            let b: Vec<String> = (0..*n as u64).map(mk).collect();
            let t: Vec<String> = (0..40u64).map(|i| mk(i * 50 + 7)).collect();
            let base = search_per_line(&b, &t);
            let chunks: Vec<_> = b.chunks(*size).map(index_mat).collect();
            info.nontrivial_if(chunks.len() > 1);
            let got = search_mat_chunk(&chunks, &t);
            for (i, (x, y)) in got.iter().zip(&base).enumerate() {
                ensure!((x - y).abs() <= TOL, "the distance of {:?} is {} instead of {}", t[i], x, y);
            }
            Ok(())
        },
    );
    r.sub(
        "huge",
        "baselines of 30000-80000 short lines in one matrix and in chunks of any size, 30 targets; compared with the per-line search; non-trivial: more than 65536 lines",
        r.cases(64, 2_000),
        || (30_000usize..80_000, any::<u64>(), 100usize..70_000),
        |(n, salt, size), info| {
            let mk = |i: u64| -> String { (0..1 + mix(salt ^ i) % 4).map(|k| word((mix(salt ^ (i * 31 + k)) % WORDS as u64) as u16)).collect::<Vec<_>>().join(" ") };
            let b: Vec<String> = (0..*n as u64).map(mk).collect();
            // long targets, so that they are not simply in the baseline
            let t: Vec<String> = (0..30u64).map(|i| [mk(i * 50 + 7), mk(*n as u64 - 1 - i * 3), mk(i + (1 << 20))].join(" ")).collect();
            let base = search_per_line(&b, &t);
            info.nontrivial_if(b.len() > 65_536);
            let chunks: Vec<_> = b.chunks(*size).map(index_mat).collect();
            for (name, got) in [("chunks", search_mat_chunk(&chunks, &t)), ("matrix", search_mat(&index_mat(&b), &t))] {
                for (i, (x, y)) in got.iter().zip(&base).enumerate() {
                    ensure!((x - y).abs() <= TOL, "{}: the distance of {:?} is {} instead of {}", name, t[i], x, y);
                }
            }
            Ok(())
        },
    );
}
