//! C01-C03: the line reader.
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, prop, Prop};
use logreduce_iterator::BytesLines;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;

pub fn props() -> Vec<Prop> {
    const A: &[&str] = &["readers follow the contract of std::io::Read"];
    vec![
        prop("C01", "exploration", c01, A),
        prop("C02", "exploration", c02, A),
        prop("C03", "exploration", c03, A),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    segs: Vec<Seg>,
    json: bool,
    delivery: Delivery,
}

fn stream() -> impl Strategy<Value = Stream> {
    (segs(), any::<bool>(), delivery()).prop_map(|(segs, json, delivery)| Stream { segs, json, delivery })
}

/// Collect the lines, bounding the number of items by what the input can yield.
fn collect<R: Read>(reader: R, json: bool, max: usize) -> Result<Vec<Piece>, String> {
    let mut out = vec![];
    for item in BytesLines::new(reader, json) {
        let (bytes, line) = item.map_err(|e| format!("unexpected error {}", e))?;
        out.push(Piece { bytes: bytes.to_vec(), line });
        ensure!(out.len() <= max, "more lines than bytes");
    }
    Ok(out)
}

fn lossy(p: &[u8]) -> String {
    String::from_utf8_lossy(p).to_string()
}

fn classify(data: &[u8], pieces: &[Piece], info: &mut Info) {
    info.label_if(data.len() > 8192, "several chunks");
    info.label_if(data.windows(2).any(|w| w == b"\\n"), "sub lines");
    info.label_if(data.windows(2).any(|w| w == b"\\\n"), "escaped newline");
    info.label_if(data.split(|c| *c == b'\n').any(|l| l.len() > MAX_LINE), "over-long physical line");
    info.label_if(pieces.iter().any(|p| p.bytes.len() > 5990), "piece just below the limit");
    info.nontrivial_if(pieces.len() >= 2);
}

fn c01(r: &mut Runner) {
    r.sub(
        "split",
        "grammar of text, raw bytes, separators, backslash runs, JSON punctuation and padding to the 6000/8192 limits, with random read sizes; compared byte for byte with a whole-buffer reference splitter; non-trivial: at least two pieces",
        r.cases(480_000, 3_000_000),
        stream,
        |s, info| {
            let data = render(&s.segs);
            let expected = reference_split(&data, s.json);
            let got = collect(TestReader::new(data.clone(), &s.delivery), s.json, data.len())?;
            classify(&data, &expected, info);
            compare_text(&got, &expected)
        },
    );
    r.sub(
        "soup",
        "short strings over the alphabet {newline, backslash, n, double quote, comma, bracket, a, b}: every interplay of escapes and separators; non-trivial: at least two pieces",
        r.cases(3_000_000, 30_000_000),
        || (proptest::collection::vec(0u8..8, 0..24), any::<bool>(), 1u16..4),
        |(v, json, step), info| {
            let data: Vec<u8> = v.iter().map(|i| b"\n\\n\",[ab"[*i as usize]).collect();
            let expected = reference_split(&data, *json);
            let got = collect(TestReader::new(data.clone(), &Delivery(vec![*step])), *json, data.len())?;
            info.nontrivial_if(expected.len() >= 2);
            compare_text(&got, &expected)
        },
    );
}

fn compare_text(got: &[Piece], expected: &[Piece]) -> Check {
    for (i, e) in expected.iter().enumerate() {
        match got.get(i) {
            Some(g) if g.bytes == e.bytes => {}
            Some(g) => return Err(format!("piece {}: got {} instead of {}", i, short(lossy(&g.bytes)), short(lossy(&e.bytes)))),
            None => return Err(format!("piece {} of {} is missing: {}", i, expected.len(), short(lossy(&e.bytes)))),
        }
    }
    ensure!(got.len() == expected.len(), "extra piece {}", short(lossy(&got[expected.len()].bytes)));
    Ok(())
}

fn c02(r: &mut Runner) {
    r.sub(
        "numbers",
        "streams as in C01; each piece must carry the number of the newline-separated physical line holding it (counted independently of the content); non-trivial: pieces on at least two different lines and a blank, split, backslash-ended or over-long line before the last one",
        r.cases(320_000, 3_000_000),
        stream,
        |s, info| {
            let data = render(&s.segs);
            let expected = reference_split(&data, s.json);
            let got = collect(TestReader::new(data.clone(), &s.delivery), s.json, data.len())?;
            classify(&data, &expected, &mut Info::default());
            check_numbers(&data, s.json, &got)?;
            let last = expected.last().map(|p| p.line).unwrap_or(0);
            let special = last > 1 && (last > expected.len() || data.windows(2).any(|w| w == b"\\n" || w == b"\\\n"));
            info.label_if(data.split(|c| *c == b'\n').any(|l| l.len() > MAX_LINE), "over-long physical line");
            info.label_if(last > expected.len(), "lines without piece");
            info.nontrivial_if(special);
            Ok(())
        },
    );
    r.sub(
        "many",
        "streams of up to 300000 physical lines (numbered, blank, over-long, split in two), the text of each telling its number; non-trivial: more than 65536 lines",
        r.cases(48, 1000),
        || (proptest::collection::vec((prop_oneof![1usize..3000, 20_000usize..70_000], 0u8..6), 1..9), any::<bool>()),
        |(runs, json), info| {
            let mut data = vec![];
            let mut n = 0usize;
            for (count, kind) in runs {
                for _ in 0..if *kind == 5 { 1 } else { *count } {
                    n += 1;
                    match kind {
                        0 => {}
                        1 => data.extend(format!("{}\\n{}", n, n).into_bytes()),
                        5 => data.extend(std::iter::repeat_n(b'x', 6001)),
                        _ => data.extend(n.to_string().into_bytes()),
                    }
                    data.push(b'\n');
                }
            }
            info.nontrivial_if(n > 65_536);
            let mut seen = 0;
            for line in logreduce_iterator::BytesLines::new(&data[..], *json) {
                let (text, nr) = line.map_err(|e| format!("unexpected error {}", e))?;
                ensure!(text == nr.to_string().as_bytes(), "line {} is said to be {}", short(&text), nr);
                seen += 1;
            }
            let want: usize = runs.iter().map(|(c, k)| match k { 0 | 5 => 0, 1 => 2 * c, _ => *c }).sum();
            ensure!(seen == want, "{} pieces instead of {}", seen, want);
            Ok(())
        },
    );
    // tagged lines: the text itself tells its number
    r.sub(
        "tagged",
        "every physical line starts with its own number, followed by a generated tail (nothing, backslash, sub lines, over-long padding, JSON punctuation); blank lines in between; the number carried must be the one in the text; non-trivial: a special tail before the last line",
        r.cases(200_000, 3_000_000),
        || {
            (
                proptest::collection::vec((0u8..7, 0u16..4), 1..30),
                proptest::collection::vec((1usize..30, prop_oneof![5980u16..6010, 8180u16..8200, 1000u16..20000]), 0..3),
                any::<bool>(),
                delivery(),
            )
        },
        |(lines, pads, json, d), info| {
            let mut data = vec![];
            let mut n = 0usize;
            let mut special = false;
            for (i, (kind, blanks)) in lines.iter().enumerate() {
                n += 1;
                data.extend(format!("{}", n).into_bytes());
                match kind {
                    0 | 1 => {}
                    2 => data.extend(b" \\"),
                    3 => data.extend(format!("\\n{}\\n", n).into_bytes()),
                    4 => data.extend(format!(" a\\n{}", n).into_bytes()),
                    5 => data.extend(b" \\\\"),
                    _ if *json => data.extend(format!(",{}", n).into_bytes()),
                    _ => data.extend(b" x"),
                }
                for (at, len) in pads {
                    if *at == i {
                        data.extend(b" ");
                        data.extend(std::iter::repeat_n(b'x', *len as usize));
                        special = true;
                    }
                }
                special |= *kind > 1 || *blanks > 0;
                data.push(b'\n');
                for _ in 0..*blanks {
                    n += 1;
                    data.push(b'\n');
                }
            }
            let got = collect(TestReader::new(data.clone(), d), *json, data.len())?;
            for p in &got {
                let text = lossy(&p.bytes);
                let num: String = text.chars().take_while(|c| c.is_ascii_digit()).collect();
                if num.is_empty() {
                    continue;
                }
                ensure!(num == p.line.to_string(), "text of line {} carries number {}", num, p.line);
            }
            info.nontrivial_if(special && lines.len() > 1);
            Ok(())
        },
    );
}

/// The pieces of the reference whose text matches, in order, give the numbers.
fn check_numbers(data: &[u8], json: bool, got: &[Piece]) -> Check {
    let expected = reference_split(data, json);
    // Where the text differs (C01) the pieces can't be paired any more.
    for (g, e) in got.iter().zip(&expected).take_while(|(g, e)| g.bytes == e.bytes) {
        ensure!(g.line == e.line, "{} carries line number {} instead of {}", short(lossy(&g.bytes)), g.line, e.line);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty {
    stream: Stream,
    /// per mille of the length, or a fixed distance from the end
    errors: Vec<(u16, u8)>,
}

fn c03(r: &mut Runner) {
    r.sub(
        "delivery",
        "streams as in C01, read through two different delivery schedules (read sizes of 1 byte to a full buffer); both must give the same lines and numbers; non-trivial: more than one chunk, or reads of less than 5 bytes, and at least two pieces",
        r.cases(80_000, 2_000_000),
        || (stream(), delivery()),
        |(s, d2), info| {
            let data = render(&s.segs);
            let a = collect(TestReader::new(data.clone(), &s.delivery), s.json, data.len())?;
            let b = collect(TestReader::new(data.clone(), d2), s.json, data.len())?;
            let c = collect(std::io::Cursor::new(data.clone()), s.json, data.len())?;
            ensure!(a == c, "{}", diff("delivery of the stream", &a, &c));
            ensure!(b == c, "{}", diff("second delivery", &b, &c));
            let small = !s.delivery.0.is_empty() || !d2.0.is_empty();
            info.nontrivial_if(a.len() >= 2 && small);
            info.label_if(data.len() > 8192, "several chunks");
            Ok(())
        },
    );
    r.sub(
        "faults",
        "streams as in C01 whose reader fails once at each of 1-4 generated offsets and then goes on; every error must come out exactly once, in place, and the lines must equal those of a reader that never failed; non-trivial: an error strictly inside the stream",
        r.cases(80_000, 2_000_000),
        || {
            (stream(), proptest::collection::vec((0u16..1001, 0u8..4), 1..5))
                .prop_map(|(stream, errors)| Faulty { stream, errors })
        },
        |f, info| {
            let data = render(&f.stream.segs);
            let clean = collect(TestReader::new(data.clone(), &f.stream.delivery), f.stream.json, data.len())?;
            let mut errors: Vec<(usize, u8)> =
                f.errors.iter().map(|(p, k)| (data.len() * *p as usize / 1000, *k)).collect();
            errors.sort();
            // Once the reader has said it is at its end, it is not asked again.
            let n_err = errors.len();
            info.nontrivial_if(errors.iter().any(|(o, _)| *o > 0 && *o < data.len()) && clean.len() >= 2);
            info.label_if(data.len() > 8192, "several chunks");
            let reader = TestReader::new(data.clone(), &f.stream.delivery).with_errors(errors.clone());
            let mut got = vec![];
            let mut seen = vec![];
            let mut items = 0;
            for item in BytesLines::new(reader, f.stream.json) {
                items += 1;
                ensure!(items <= data.len() + n_err + 1, "more items than bytes and errors");
                match item {
                    Ok((b, line)) => got.push(Piece { bytes: b.to_vec(), line }),
                    Err(e) => seen.push((got.len(), e.kind())),
                }
            }
            ensure!(seen.len() == n_err, "{} errors raised by the reader, {} handed over", n_err, seen.len());
            for (i, (_, k)) in errors.iter().enumerate() {
                ensure!(seen[i].1 == error_kind(*k), "error {} is {:?} instead of {:?}", i, seen[i].1, error_kind(*k));
            }
            ensure!(got == clean, "{}", diff("recovered reader", &got, &clean));
            Ok(())
        },
    );
    let big = r.cases(3_000_000, 60_000_000) as u64;
    r.sub(
        "giant",
        "streams of a prefix, a unit (newline, sub line, over-long or short line, JSON punctuation, plain text) repeated up to millions of times, and a suffix; they must be read to the end with the lines and numbers of the reference, holding at most 512 KiB of memory at once; non-trivial: at least a million bytes",
        r.cases(256, 800),
        || {
            (
                prop_oneof![
                    3 => Just("\n".to_string()), 1 => Just("\r\n".to_string()), 2 => Just("\\n".to_string()), 1 => Just(",".to_string()),
                    1 => Just("x".to_string()), 1 => Just("\\".to_string()), 1 => Just("\\\\".to_string()), 1 => Just("\"".to_string()), 1 => Just("x\n".to_string()),
                    1 => (5999usize..6003).prop_map(|n| format!("{}\n", "y".repeat(n))),
                    1 => (6001usize..9000).prop_map(|n| format!("{}\\n", "y".repeat(n))),
                ],
                prop_oneof![Just(0u64), 1u64..1000, 30_000u64..200_000, Just(1_000_000u64), Just(u64::MAX)],
                prop_oneof![Just("".to_string()), Just("before\n".to_string()), Just("before".to_string()), Just("\"".to_string())],
                prop_oneof![Just("".to_string()), Just("after".to_string()), Just("\nafter\n".to_string()), Just("\\nafter".to_string())],
                any::<bool>(),
            )
                .prop_map(move |(unit, count, prefix, suffix, json)| {
                    let cap = big / unit.len() as u64;
                    (Giant { count: count.min(cap), unit, prefix, suffix }, json)
                })
        },
        |(g, json), info| {
            info.nontrivial_if(g.count * g.unit.len() as u64 >= 1_000_000);
            let (want_n, want_last, want_bytes, want_hash) = giant_reference(g, *json);
            let (mut n, mut last, mut bytes, mut hash) = (0usize, None, 0usize, 0u64);
            let (res, memory) = crate::alloc::peak(|| -> Check {
                for item in BytesLines::new(g.reader(), *json) {
                    let (b, l) = item.map_err(|e| format!("unexpected error {}", e))?;
                    n += 1;
                    bytes += b.len();
                    hash = hash.wrapping_mul(31).wrapping_add(l as u64 ^ hash_bytes(&b));
                    last = Some((b.to_vec(), l));
                }
                Ok(())
            });
            res?;
            ensure!(memory < 512 * 1024, "{} bytes of memory are held at once to read a stream of {} bytes", memory, g.count * g.unit.len() as u64);
            ensure!(n == want_n, "{} lines instead of {}", n, want_n);
            ensure!(bytes == want_bytes, "{} bytes instead of {}", bytes, want_bytes);
            ensure!(last == want_last, "last line {} instead of {}", short(&last), short(&want_last));
            ensure!(hash == want_hash, "the lines differ");
            Ok(())
        },
    );
}

#[allow(clippy::type_complexity)]
fn giant_reference(g: &Giant, json: bool) -> (usize, Option<(Vec<u8>, usize)>, usize, u64) {
    let mut data = vec![];
    g.reader().read_to_end(&mut data).unwrap();
    let pieces = reference_split(&data, json);
    let hash = pieces.iter().fold(0u64, |h, p| h.wrapping_mul(31).wrapping_add(p.line as u64 ^ hash_bytes(&p.bytes)));
    (
        pieces.len(),
        pieces.last().map(|p| (p.bytes.clone(), p.line)),
        pieces.iter().map(|p| p.bytes.len()).sum(),
        hash,
    )
}

fn diff(what: &str, got: &[Piece], want: &[Piece]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let show = |p: Option<&Piece>| p.map(|p| format!("{} (line {})", short(lossy(&p.bytes)), p.line)).unwrap_or("nothing".into());
    format!("{}: piece {} is {} instead of {}", what, i, show(got.get(i)), show(want.get(i)))
}
