//! Generators and helpers shared by the checks.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Read};

/// A piece of a byte stream. The grammar is built around what the line reader treats specially.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Seg {
    Text(String),
    Bytes(Vec<u8>),
    Newline,
    CrLf,
    SubLine,
    Backslash(u8),
    Json(u8),
    Quote,
    /// n times the letter
    Pad(u16),
    /// Pad so that the next byte is at offset k * 8192 + delta
    PadTo(i8),
    Newlines(u16),
    SubLines(u16),
}

pub fn render(segs: &[Seg]) -> Vec<u8> {
    let mut out = vec![];
    for (i, s) in segs.iter().enumerate() {
        match s {
            Seg::Text(t) => out.extend(t.as_bytes()),
            Seg::Bytes(b) => out.extend(b),
            Seg::Newline => out.push(b'\n'),
            Seg::CrLf => out.extend(b"\r\n"),
            Seg::SubLine => out.extend(b"\\n"),
            Seg::Backslash(n) => out.extend(std::iter::repeat_n(b'\\', *n as usize)),
            Seg::Json(c) => out.push(b",[]{}"[*c as usize % 5]),
            Seg::Quote => out.push(b'"'),
            Seg::Pad(n) => out.extend(std::iter::repeat_n(b'a' + (i % 26) as u8, *n as usize)),
            Seg::PadTo(delta) => {
                let len = out.len() as i64;
                let mut target = (len / 8192) * 8192 + *delta as i64;
                while target < len {
                    target += 8192;
                }
                out.extend(std::iter::repeat_n(b'A' + (i % 26) as u8, (target - len) as usize));
            }
            Seg::Newlines(n) => out.extend(std::iter::repeat_n(b'\n', *n as usize)),
            Seg::SubLines(n) => {
                for _ in 0..*n {
                    out.extend(b"\\n")
                }
            }
        }
    }
    out
}

pub fn seg() -> impl Strategy<Value = Seg> {
    prop_oneof![
        6 => "[a-zA-Z0-9 :=./n-]{1,12}".prop_map(Seg::Text),
        1 => "\\PC{1,6}".prop_map(Seg::Text),
        1 => proptest::collection::vec(any::<u8>(), 1..6).prop_map(Seg::Bytes),
        6 => Just(Seg::Newline),
        1 => Just(Seg::CrLf),
        4 => Just(Seg::SubLine),
        2 => (1u8..5).prop_map(Seg::Backslash),
        2 => (0u8..5).prop_map(Seg::Json),
        1 => Just(Seg::Quote),
        1 => prop_oneof![Just(5998u16), Just(5999), Just(6000), Just(6001), Just(6002), 1u16..40, 5900u16..6100, 1u16..9000].prop_map(Seg::Pad),
        1 => (-3i8..4).prop_map(Seg::PadTo),
        1 => (1u16..50).prop_map(Seg::Newlines),
        1 => (1u16..20).prop_map(Seg::SubLines),
    ]
}

/// Streams from a few bytes to several chunks.
pub fn segs() -> impl Strategy<Value = Vec<Seg>> {
    prop_oneof![
        3 => proptest::collection::vec(seg(), 0..12),
        2 => proptest::collection::vec(seg(), 10..60),
        // around the length limit and the chunk size
        2 => proptest::collection::vec(
            prop_oneof![
                2 => (5990u16..6010).prop_map(Seg::Pad),
                2 => (-3i8..4).prop_map(Seg::PadTo),
                1 => prop_oneof![Just(8191u16), Just(8192), Just(8193), Just(14192), Just(16384), 8000u16..25000].prop_map(Seg::Pad),
                2 => Just(Seg::Newline),
                2 => Just(Seg::SubLine),
                1 => (1u8..4).prop_map(Seg::Backslash),
                1 => (0u8..5).prop_map(Seg::Json),
                2 => "[a-zn ]{1,8}".prop_map(Seg::Text),
            ],
            1..16
        ),
    ]
}

#[derive(Clone, Debug, PartialEq)]
pub struct Piece {
    pub bytes: Vec<u8>,
    pub line: usize,
}

pub const MAX_LINE: usize = 6000;

/// The reference splitter, over the whole stream.
pub fn reference_split(data: &[u8], json: bool) -> Vec<Piece> {
    let mut out = vec![];
    let mut cur: Vec<u8> = vec![];
    let mut line = 1;
    let mut in_string = false;
    let mut flush = |cur: &mut Vec<u8>, line: usize| {
        if !cur.is_empty() && cur.len() <= MAX_LINE {
            out.push(Piece { bytes: std::mem::take(cur), line });
        }
        cur.clear();
    };
    let mut i = 0;
    while i < data.len() {
        let c = data[i];
        if c == b'\n' {
            flush(&mut cur, line);
            line += 1;
            i += 1;
        } else if c == b'\\' {
            match data.get(i + 1) {
                Some(b'n') => {
                    flush(&mut cur, line);
                    i += 2;
                }
                // the line return is not swallowed by the backslash
                Some(b'\n') | None => {
                    cur.push(c);
                    i += 1;
                }
                Some(d) => {
                    cur.push(c);
                    cur.push(*d);
                    i += 2;
                }
            }
        } else if json && c == b'"' {
            in_string = !in_string;
            cur.push(c);
            i += 1;
        } else if json && !in_string && b",[]{}".contains(&c) {
            flush(&mut cur, line);
            i += 1;
        } else {
            cur.push(c);
            i += 1;
        }
    }
    flush(&mut cur, line);
    out
}

/// How a reader delivers its bytes: the sizes of the successive reads (cycled).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Delivery(pub Vec<u16>);

pub fn delivery() -> impl Strategy<Value = Delivery> {
    prop_oneof![
        2 => Just(Delivery(vec![])),
        2 => proptest::collection::vec(1u16..5, 1..4).prop_map(Delivery),
        2 => proptest::collection::vec(prop_oneof![1u16..100, 4000u16..9000, Just(1u16), Just(8191), Just(6000), Just(6001)], 1..8).prop_map(Delivery),
    ]
}

/// A reader over memory with short reads and errors at given offsets.
pub struct TestReader {
    pub data: Vec<u8>,
    pub pos: usize,
    pub delivery: Vec<u16>,
    pub step: usize,
    /// (offset, kind), sorted by offset: raised once, when the position is reached.
    pub errors: Vec<(usize, u8)>,
    pub reads_after_eof: usize,
}

impl TestReader {
    pub fn new(data: Vec<u8>, delivery: &Delivery) -> TestReader {
        TestReader { data, pos: 0, delivery: delivery.0.clone(), step: 0, errors: vec![], reads_after_eof: 0 }
    }
    pub fn with_errors(mut self, mut errors: Vec<(usize, u8)>) -> TestReader {
        errors.sort();
        self.errors = errors;
        self
    }
}

pub fn error_kind(n: u8) -> ErrorKind {
    let kinds = [ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::ConnectionAborted];
    kinds[n as usize % kinds.len()]
}

impl Read for TestReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut end = self.data.len();
        if let Some((off, kind)) = self.errors.first().copied() {
            let off = off.min(self.data.len());
            if off <= self.pos {
                self.errors.remove(0);
                return Err(Error::new(error_kind(kind), "injected"));
            }
            end = off;
        }
        let mut n = buf.len().min(end - self.pos);
        if !self.delivery.is_empty() {
            n = n.min(self.delivery[self.step % self.delivery.len()] as usize);
            self.step += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n == 0 {
            self.reads_after_eof += 1;
        }
        Ok(n)
    }
}

/// A deterministic generator of big streams: a prefix, a unit repeated, a suffix.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Giant {
    pub prefix: String,
    pub unit: String,
    pub count: u64,
    pub suffix: String,
}

impl Giant {
    pub fn reader(&self) -> impl Read {
        use std::io::Cursor;
        Cursor::new(self.prefix.clone().into_bytes())
            .chain(RepeatReader { unit: self.unit.clone().into_bytes(), left: self.count * self.unit.len() as u64, pos: 0 })
            .chain(Cursor::new(self.suffix.clone().into_bytes()))
    }
}

struct RepeatReader {
    unit: Vec<u8>,
    left: u64,
    pos: usize,
}

impl Read for RepeatReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = (buf.len() as u64).min(self.left) as usize;
        for b in &mut buf[..n] {
            *b = self.unit[self.pos];
            self.pos = (self.pos + 1) % self.unit.len();
        }
        self.left -= n as u64;
        Ok(n)
    }
}
