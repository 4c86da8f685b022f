//! Records of 256-bit integers on a simulated disk: real data formats and the
//! library's real serde code over a disk that fills up, fails, tears and flips.

use crate::exec::{classify, outcome, Outcome, Ret};
use crate::node::ETHS;
use crate::plan::*;
use crate::rng::{fnv, mix};
use crate::seam::Viol;
use crate::text::{self, Expect};
use crate::val::{Ty, W};
use bincode::Options;
use serde::de::{self, DeserializeOwned, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
pub struct TextVals {
    /// U256 and I256 in turn: hex, decimal, prefixed, permissive
    pub f: Vec<W>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub o: Option<W>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub v: Vec<W>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub m: Vec<(W, W)>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct ByteVals {
    /// U256 and I256 in turn: le, be, ne, compressed le, be, ne
    pub f: Vec<W>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Codec {
    Json,
    /// through a buffered serde_json::Value
    JsonValue,
    /// inside an internally tagged enum, which buffers its content
    JsonTagged,
    Bincode,
    Ron,
    /// lines of Display and '#' radix text, and the parsers
    Plain,
}
pub const CODECS: [Codec; 6] = [Codec::Json, Codec::JsonValue, Codec::JsonTagged, Codec::Bincode, Codec::Ron, Codec::Plain];
impl Codec {
    pub fn self_describing(self) -> bool {
        self != Codec::Bincode
    }
}

#[derive(Serialize, Deserialize)]
#[serde(tag = "t")]
enum Tagged<T> {
    R(T),
}
#[derive(Serialize)]
#[serde(tag = "t")]
enum TaggedRef<'a, T> {
    R(&'a T),
}

fn bin() -> impl Options {
    bincode::DefaultOptions::new().with_fixint_encoding().with_limit(1 << 16)
}

struct Ascii<'a>(&'a mut dyn Write, Option<io::Error>);
impl fmt::Write for Ascii<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.write_all(s.as_bytes()).map_err(|e| {
            self.1 = Some(e);
            fmt::Error
        })
    }
}

pub fn encode<T: Serialize>(codec: Codec, v: &T, w: &mut dyn Write) -> Result<(), String> {
    let mut w = w;
    match codec {
        Codec::Json => serde_json::to_writer(w, v).map_err(|e| e.to_string()),
        Codec::JsonValue => {
            let v = serde_json::to_value(v).map_err(|e| e.to_string())?;
            serde_json::to_writer(w, &v).map_err(|e| e.to_string())
        }
        Codec::JsonTagged => serde_json::to_writer(w, &TaggedRef::R(v)).map_err(|e| e.to_string()),
        Codec::Bincode => bin().serialize_into(w, v).map_err(|e| e.to_string()),
        Codec::Ron => {
            let mut a = Ascii(&mut w, None);
            ron::Options::default().to_writer(&mut a, v).map_err(|e| e.to_string())
        }
        Codec::Plain => Err("harness: plain".into()),
    }
}

pub fn decode<T: DeserializeOwned>(codec: Codec, r: Read) -> Result<T, String> {
    match (codec, r) {
        (Codec::Json, Read::Slice(b)) => serde_json::from_slice(b).map_err(|e| e.to_string()),
        (Codec::Json, Read::Stream(r)) => serde_json::from_reader(r).map_err(|e| e.to_string()),
        (Codec::JsonValue, r) => {
            let v: serde_json::Value = match r {
                Read::Slice(b) => serde_json::from_slice(b).map_err(|e| e.to_string())?,
                Read::Stream(r) => serde_json::from_reader(r).map_err(|e| e.to_string())?,
            };
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        (Codec::JsonTagged, r) => {
            let Tagged::R(x) = match r {
                Read::Slice(b) => serde_json::from_slice(b).map_err(|e| e.to_string())?,
                Read::Stream(r) => serde_json::from_reader(r).map_err(|e| e.to_string())?,
            };
            Ok(x)
        }
        (Codec::Bincode, Read::Slice(b)) => bin().deserialize(b).map_err(|e| e.to_string()),
        (Codec::Bincode, Read::Stream(r)) => {
            let x = bin().deserialize_from(&mut *r).map_err(|e| e.to_string())?;
            Ok(x)
        }
        (Codec::Ron, Read::Slice(b)) => ron::de::from_bytes(b).map_err(|e| e.to_string()),
        (Codec::Ron, Read::Stream(r)) => ron::de::from_reader(r).map_err(|e| e.to_string()),
        (Codec::Plain, _) => Err("harness: plain".into()),
    }
}

pub enum Read<'a> {
    Slice(&'a [u8]),
    Stream(&'a mut SimRead<'a>),
}
impl Read<'_> {
    /// Everything, through the stream's faults.
    pub fn all(self) -> Result<Vec<u8>, String> {
        match self {
            Read::Slice(b) => Ok(b.to_vec()),
            Read::Stream(r) => {
                let mut v = Vec::new();
                io::Read::read_to_end(r, &mut v).map_err(|e| e.to_string())?;
                Ok(v)
            }
        }
    }
}

/// A reader that gives bytes in small pieces, is interrupted, and may fail.
pub struct SimRead<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunk: u32,
    pub intr: u32,
    pub eio: Option<u32>,
    pub calls: u32,
    pub interrupted: bool,
    pub failed: bool,
    pub split: u64,
    pub intrs: u64,
}

impl io::Read for SimRead<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % (self.intr + 1) == 0 && !self.interrupted {
            self.interrupted = true;
            self.intrs += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        if self.eio.is_some_and(|e| self.pos >= e as usize) {
            self.failed = true;
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        let mut n = b.len().min(self.data.len() - self.pos);
        if self.chunk > 0 && n > self.chunk as usize {
            n = 1 + (self.pos * 7 + self.calls as usize) % self.chunk as usize;
            self.split += 1;
        }
        if let Some(e) = self.eio {
            n = n.min(e as usize - self.pos);
            if n == 0 && !b.is_empty() && self.pos < self.data.len() {
                self.failed = true;
                return Err(io::Error::from_raw_os_error(libc::EIO));
            }
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// ---- what is stored, read without the library -------------------------------

/// One stored value as the data format presents it.  K: 0 whatever is there,
/// 1 a string, 2 bytes (formats that do not describe themselves).
pub struct Raw<const K: u8>(pub In);

struct RawVisitor;
impl<'de> Visitor<'de> for RawVisitor {
    type Value = In;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, x: bool) -> Result<In, E> {
        Ok(In::Bool(x))
    }
    fn visit_i64<E>(self, x: i64) -> Result<In, E> {
        Ok(In::I64(x))
    }
    fn visit_u64<E>(self, x: u64) -> Result<In, E> {
        Ok(In::U64(x))
    }
    fn visit_i128<E>(self, x: i128) -> Result<In, E> {
        Ok(In::I128(W([x as u128, 0])))
    }
    fn visit_u128<E>(self, x: u128) -> Result<In, E> {
        Ok(In::U128(W([x, 0])))
    }
    fn visit_f32<E>(self, x: f32) -> Result<In, E> {
        Ok(In::F32(x.to_bits()))
    }
    fn visit_f64<E>(self, x: f64) -> Result<In, E> {
        Ok(In::F64(x.to_bits()))
    }
    fn visit_char<E>(self, x: char) -> Result<In, E> {
        Ok(In::Char(x))
    }
    fn visit_str<E>(self, x: &str) -> Result<In, E> {
        Ok(In::Str(Mode::Owned, x.to_string()))
    }
    fn visit_bytes<E>(self, x: &[u8]) -> Result<In, E> {
        Ok(In::Bytes(Mode::Owned, x.to_vec()))
    }
    fn visit_unit<E>(self) -> Result<In, E> {
        Ok(In::Unit)
    }
    fn visit_none<E>(self) -> Result<In, E> {
        Ok(In::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<In, D::Error> {
        Ok(In::Some(Box::new(d.deserialize_any(RawVisitor)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<In, D::Error> {
        Ok(In::Newtype(Box::new(d.deserialize_any(RawVisitor)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<In, A::Error> {
        let mut v = Vec::new();
        while let Some(Raw::<0>(x)) = a.next_element()? {
            v.push(match x {
                In::U8(x) => Elem::U64(x as u64),
                In::U64(x) => Elem::U64(x),
                In::I64(x) => Elem::I64(x),
                In::F64(x) => Elem::F64(x),
                In::Str(_, s) => Elem::Str(s),
                In::Bool(b) => Elem::Bool(b),
                _ => Elem::Unit,
            });
        }
        Ok(In::Seq(v, None, false))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<In, A::Error> {
        while a.next_entry::<Raw<0>, Raw<0>>()?.is_some() {}
        Ok(In::Map)
    }
}

impl<'de, const K: u8> Deserialize<'de> for Raw<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Raw<K>, D::Error> {
        Ok(Raw(match K {
            0 => d.deserialize_any(RawVisitor)?,
            1 => d.deserialize_str(RawVisitor)?,
            _ => d.deserialize_bytes(RawVisitor)?,
        }))
    }
}

struct RawMap<const K: u8>(Vec<(In, In)>);
impl<'de, const K: u8> Deserialize<'de> for RawMap<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<RawMap<K>, D::Error> {
        struct V<const K: u8>;
        impl<'de, const K: u8> Visitor<'de> for V<K> {
            type Value = RawMap<K>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<RawMap<K>, A::Error> {
                let mut v = Vec::new();
                while let Some((k, x)) = a.next_entry::<Raw<K>, Raw<K>>()? {
                    v.push((k.0, x.0));
                }
                Ok(RawMap(v))
            }
        }
        d.deserialize_map(V::<K>)
    }
}

#[derive(Deserialize)]
struct RawText {
    uh: Raw<0>,
    ih: Raw<0>,
    ud: Raw<0>,
    id: Raw<0>,
    up: Raw<0>,
    ip: Raw<0>,
    um: Raw<0>,
    im: Raw<0>,
    o: Option<Raw<0>>,
    v: Vec<Raw<0>>,
    m: RawMap<0>,
}
#[derive(Deserialize)]
struct RawTextPlain {
    uh: Raw<1>,
    ih: Raw<1>,
    ud: Raw<1>,
    id: Raw<1>,
    up: Raw<1>,
    ip: Raw<1>,
    o: Option<Raw<1>>,
    v: Vec<Raw<1>>,
    m: RawMap<1>,
}
#[derive(Deserialize)]
struct RawBytes<const K: u8> {
    ul: Raw<K>,
    il: Raw<K>,
    ub: Raw<K>,
    ib: Raw<K>,
    un: Raw<K>,
    r#in: Raw<K>,
    cul: Raw<K>,
    cil: Raw<K>,
    cub: Raw<K>,
    cib: Raw<K>,
    cun: Raw<K>,
    cin: Raw<K>,
}

pub const TEXT_FIELDS: [(Ty, Form); 8] = [
    (Ty::U, Form::Hex),
    (Ty::I, Form::Hex),
    (Ty::U, Form::Dec),
    (Ty::I, Form::Dec),
    (Ty::U, Form::Prefixed),
    (Ty::I, Form::Prefixed),
    (Ty::U, Form::Permissive),
    (Ty::I, Form::Permissive),
];
pub const BYTE_FIELDS: [(Ty, Form); 12] = [
    (Ty::U, Form::BytesLe),
    (Ty::I, Form::BytesLe),
    (Ty::U, Form::BytesBe),
    (Ty::I, Form::BytesBe),
    (Ty::U, Form::BytesNe),
    (Ty::I, Form::BytesNe),
    (Ty::U, Form::CompLe),
    (Ty::I, Form::CompLe),
    (Ty::U, Form::CompBe),
    (Ty::I, Form::CompBe),
    (Ty::U, Form::CompNe),
    (Ty::I, Form::CompNe),
];

/// The plain lines: type, format and parser of each.
pub const PLAIN: [(Ty, How); 8] = [
    (Ty::U, How::Dec),
    (Ty::I, How::Dec),
    (Ty::U, How::Hex),
    (Ty::I, How::Hex),
    (Ty::U, How::Prefixed),
    (Ty::I, How::Prefixed),
    (Ty::U, How::Prefixed),
    (Ty::I, How::Prefixed),
];

/// What a stored field must read as; None: this reference does not say.
fn expect_field(codec: Codec, ty: Ty, form: Form, x: &In) -> Option<Expect> {
    let e = text::expect_de(ty, form, x);
    let natural = match x {
        In::Str(..) => form.text(),
        In::Bytes(..) => !form.text(),
        In::Seq(..) => !form.text() && codec != Codec::Ron,
        _ => false,
    };
    if natural {
        return Some(e);
    }
    // A string where bytes are expected is decoded in the format's own way.
    if !form.text() || matches!(x, In::Bytes(..) | In::Some(_) | In::Newtype(_)) {
        return None;
    }
    Some(match e {
        Expect::Must(w) if form != Form::Permissive => Expect::May(w),
        e => e,
    })
}

enum Ref {
    /// the stored record is broken for any reader of this shape
    Broken,
    Fields(Vec<(String, Option<Expect>)>, Option<Option<Expect>>, Vec<Option<Expect>>, Vec<(Option<Expect>, Option<Expect>)>),
}

fn reference(text_: bool, codec: Codec, data: &[u8]) -> Ref {
    if codec == Codec::Plain {
        let Ok(s) = std::str::from_utf8(data) else { return Ref::Broken };
        let Some(s) = s.strip_suffix('\n') else { return Ref::Broken };
        let lines: Vec<&str> = s.split('\n').collect();
        if lines.len() != PLAIN.len() {
            return Ref::Broken;
        }
        let f = lines
            .iter()
            .zip(PLAIN)
            .map(|(l, (ty, how))| {
                let e = text::parse(ty, how, l.as_bytes(), 10).map_or(Expect::Err, Expect::Must);
                (format!("{:?}", l), Some(e))
            })
            .collect();
        return Ref::Fields(f, None, vec![], vec![]);
    }
    let fields = |raws: Vec<In>, defs: &[(Ty, Form)]| {
        raws.iter().zip(defs).map(|(x, (ty, form))| (format!("{:?} {:?} {:?}", ty, form, x), expect_field(codec, *ty, *form, x))).collect::<Vec<_>>()
    };
    let rest = |o: Option<In>, v: Vec<In>, m: Vec<(In, In)>| {
        (
            Some(o.map_or(Some(Expect::Err), |x| expect_field(codec, Ty::U, Form::Hex, &x))),
            v.iter().map(|x| expect_field(codec, Ty::I, Form::Hex, x)).collect::<Vec<_>>(),
            m.iter()
                .map(|(k, x)| (expect_field(codec, Ty::U, Form::Hex, k), expect_field(codec, Ty::I, Form::Hex, x)))
                .collect::<Vec<_>>(),
        )
    };
    match (text_, codec.self_describing()) {
        (true, true) => match decode::<RawText>(codec, Read::Slice(data)) {
            Err(_) => Ref::Broken,
            Ok(r) => {
                let none = r.o.is_none();
                let (o, v, m) = rest(r.o.map(|x| x.0), r.v.into_iter().map(|x| x.0).collect(), r.m.0);
                Ref::Fields(
                    fields(vec![r.uh.0, r.ih.0, r.ud.0, r.id.0, r.up.0, r.ip.0, r.um.0, r.im.0], &TEXT_FIELDS),
                    if none { None } else { o },
                    v,
                    m,
                )
            }
        },
        (true, false) => match decode::<RawTextPlain>(codec, Read::Slice(data)) {
            Err(_) => Ref::Broken,
            Ok(r) => {
                let none = r.o.is_none();
                let (o, v, m) = rest(r.o.map(|x| x.0), r.v.into_iter().map(|x| x.0).collect(), r.m.0);
                Ref::Fields(fields(vec![r.uh.0, r.ih.0, r.ud.0, r.id.0, r.up.0, r.ip.0], &TEXT_FIELDS), if none { None } else { o }, v, m)
            }
        },
        (false, sd) => {
            fn raws<const K: u8>(r: RawBytes<K>) -> Vec<In> {
                vec![
                    r.ul.0, r.il.0, r.ub.0, r.ib.0, r.un.0, r.r#in.0, r.cul.0, r.cil.0, r.cub.0, r.cib.0, r.cun.0, r.cin.0,
                ]
            }
            let r = if sd {
                decode::<RawBytes<0>>(codec, Read::Slice(data)).map(raws)
            } else {
                decode::<RawBytes<2>>(codec, Read::Slice(data)).map(raws)
            };
            match r {
                Err(_) => Ref::Broken,
                Ok(r) => Ref::Fields(fields(r, &BYTE_FIELDS), None, vec![], vec![]),
            }
        }
    }
}

// ---- the journal --------------------------------------------------------------

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Mut {
    Flip(u32, u8),
    Set(u32, u8),
    Insert(u32, u8),
    Delete(u32),
    Cut(u32),
    /// a stretch repeated elsewhere (a misdirected or stale write)
    Copy(u32, u32, u8),
    Zero(u32, u8),
    /// a stretch written twice
    Dup(u32, u16),
    /// so many of one byte pushed in
    Fill(u32, u8, u16),
}

pub fn mutate(data: &mut Vec<u8>, m: &Mut) {
    let at = |p: u32, n: usize| if n == 0 { 0 } else { p as usize % n };
    let n = data.len();
    match *m {
        Mut::Flip(p, b) if n > 0 => data[at(p, n)] ^= 1 << (b & 7),
        Mut::Set(p, b) if n > 0 => data[at(p, n)] = b,
        Mut::Insert(p, b) => data.insert(at(p, n + 1), b),
        Mut::Delete(p) if n > 0 => {
            data.remove(at(p, n));
        }
        Mut::Cut(p) => data.truncate(at(p, n + 1)),
        Mut::Copy(a, b, k) if n > 0 => {
            let (a, b) = (at(a, n), at(b, n));
            let k = (k as usize).min(n - a).min(n - b);
            let t = data[a..a + k].to_vec();
            data[b..b + k].copy_from_slice(&t);
        }
        Mut::Zero(p, k) if n > 0 => {
            let p = at(p, n);
            let k = (k as usize).min(n - p);
            data[p..p + k].fill(0);
        }
        Mut::Dup(p, k) if n > 0 && n < 1 << 17 => {
            let p = at(p, n);
            let k = (k as usize).min(n - p);
            let t = data[p..p + k].to_vec();
            data.splice(p..p, t);
        }
        Mut::Fill(p, b, k) if n < 1 << 17 => {
            let p = at(p, n + 1);
            data.splice(p..p, std::iter::repeat_n(b, k as usize));
        }
        _ => {}
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Vals {
    T(TextVals),
    B(ByteVals),
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum DK {
    Short(u16),
    Intr,
    /// nothing more fits until space is freed by the next rollback
    Full,
    Eio,
    /// takes some, then fails
    Torn(u16),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum JOp {
    Append(Vals),
    Sync,
    /// fsync fails, and what was not durable is gone
    SyncFails,
    /// power loss: so many of the unsynced bytes survive, and then so many
    /// zeroes (allocated, never written)
    Crash { keep: u32, zeros: u8 },
    Corrupt { rec: u32, muts: Vec<Mut> },
    Read { rec: u32, chunk: u32, intr: u32, eio: Option<u32> },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Journal {
    pub codec: Codec,
    pub text: bool,
    pub writer: Build,
    pub reader: Build,
    pub ops: Vec<JOp>,
    /// at the n-th write call on the disk
    pub disk: Vec<(u32, DK)>,
}

struct Disk<'a> {
    data: Vec<u8>,
    durable: usize,
    calls: u32,
    plan: &'a [(u32, DK)],
    full: bool,
    stats: BTreeMap<&'static str, u64>,
    us: u64,
}
impl io::Write for Disk<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = self.calls;
        self.calls += 1;
        self.us += 10 + b.len() as u64 / 64;
        let mut count = |s| *self.stats.entry(s).or_insert(0) += 1;
        if self.full {
            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
        }
        let mut n = b.len();
        for (_, d) in self.plan.iter().filter(|(at, _)| *at == k) {
            match d {
                DK::Short(x) if n > 1 => {
                    n = (*x as usize).clamp(1, n);
                    count("short_write");
                }
                DK::Short(_) => {}
                DK::Intr => {
                    count("interrupted_write");
                    return Err(io::ErrorKind::Interrupted.into());
                }
                DK::Full => {
                    count("disk_full");
                    self.full = true;
                    return Err(io::Error::from_raw_os_error(libc::ENOSPC));
                }
                DK::Eio => {
                    count("disk_error");
                    return Err(io::Error::from_raw_os_error(libc::EIO));
                }
                DK::Torn(x) => {
                    count("torn_write_then_error");
                    let x = (*x as usize).min(n);
                    self.data.extend_from_slice(&b[..x]);
                    return Err(io::Error::from_raw_os_error(libc::EIO));
                }
            }
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Rec {
    from: usize,
    to: usize,
    vals: Vals,
    acked: bool,
}

pub fn run(j: &Journal, verbose: bool) -> Outcome {
    let mut log: Vec<String> = Vec::new();
    let mut digest = 0x7788u64;
    let mut viol: Option<Viol> = None;
    let mut steps = 0;
    let (we, re) = (ETHS[j.writer as usize], ETHS[j.reader as usize]);
    let mut d = Disk { data: vec![], durable: 0, calls: 0, plan: &j.disk, full: false, stats: Default::default(), us: 0 };
    let mut recs: Vec<Rec> = Vec::new();
    let mut stale: Vec<Vec<u8>> = Vec::new();
    macro_rules! say {
        ($($a:tt)*) => { if verbose { log.push(format!($($a)*)) } };
    }
    macro_rules! bad {
        ($c:expr, $($a:tt)*) => { if viol.is_none() { viol = Some(Viol { class: $c.to_string(), msg: format!($($a)*) }) } };
    }
    let read_back = |data: &[u8], r: Read| -> Ret<Result<Vals, String>> {
        let _ = data;
        classify(catch_unwind(AssertUnwindSafe(|| {
            if j.text {
                re.text_in(j.codec, r).map(Vals::T)
            } else {
                re.byte_in(j.codec, r).map(Vals::B)
            }
        })))
    };
    let ops: Vec<JOp> = j.ops.iter().cloned().chain(std::iter::once(JOp::Read { rec: u32::MAX, chunk: 0, intr: 0, eio: None })).collect();
    for op in &ops {
        if viol.is_some() {
            break;
        }
        steps += 1;
        say!("[{} us] {}", d.us, serde_json::to_string(op).unwrap_or_default());
        match op {
            JOp::Append(v) => {
                let v = &fit(j, v);
                let from = d.data.len();
                let ret = classify(catch_unwind(AssertUnwindSafe(|| match v {
                    Vals::T(t) => we.text_out(j.codec, t, &mut d),
                    Vals::B(b) => we.byte_out(j.codec, b, &mut d),
                })));
                match ret {
                    Ret::Done(Ok(())) => {
                        let to = d.data.len();
                        say!("  wrote {:?}", String::from_utf8_lossy(&d.data[from..to]));
                        recs.push(Rec { from, to, vals: v.clone(), acked: false });
                    }
                    Ret::Done(Err(e)) => {
                        say!("  failed: {}; rolled back", e);
                        *d.stats.entry("append_rolled_back").or_insert(0) += 1;
                        stale.push(d.data[from..].to_vec());
                        d.data.truncate(from);
                        d.full = false;
                    }
                    r => bad!("journal/write-panic", "writing {:?} with {:?} ended with {}", v, j.codec, outcome(&r)),
                }
            }
            JOp::Sync => {
                d.us += 2000;
                d.durable = d.data.len();
                recs.iter_mut().for_each(|r| r.acked = true);
            }
            JOp::SyncFails => {
                d.us += 2000;
                *d.stats.entry("fsync_error").or_insert(0) += 1;
                d.data.truncate(d.durable);
                let n = d.durable;
                recs.retain(|r| r.to <= n);
            }
            JOp::Crash { keep, zeros } => {
                d.us += 1_000_000;
                *d.stats.entry("crash_restart").or_insert(0) += 1;
                d.full = false;
                let keep = (d.durable + *keep as usize).min(d.data.len());
                let mut end = keep;
                if keep < d.data.len() {
                    *d.stats.entry("torn_tail").or_insert(0) += 1;
                    end = (keep + *zeros as usize).min(d.data.len());
                    d.data[keep..end].fill(0);
                }
                d.data.truncate(end);
                // Recovery reads what it finds behind the durable records.
                for r in recs.iter().filter(|r| !r.acked && r.from < d.data.len()) {
                    let tail = &d.data[r.from..r.to.min(d.data.len())];
                    let whole = r.to <= keep;
                    let got = read_back(tail, Read::Slice(tail));
                    digest = note(digest, &got);
                    if whole {
                        if let Some(m) = wrong_whole(&got, &r.vals) {
                            bad!("journal/value", "{}", m);
                        }
                    } else if let Some(m) = wrong_ref(j, tail, &got) {
                        bad!("journal/corrupt", "{}", m);
                    }
                }
                d.data.truncate(d.durable);
                let n = d.durable;
                recs.retain(|r| r.to <= n);
            }
            JOp::Corrupt { rec, muts } => {
                if recs.is_empty() {
                    continue;
                }
                *d.stats.entry("corruption").or_insert(0) += 1;
                let r = &recs[*rec as usize % recs.len()];
                let mut data = d.data[r.from..r.to].to_vec();
                for m in muts {
                    mutate(&mut data, m);
                }
                let got = read_back(&data, Read::Slice(&data));
                digest = note(digest, &got);
                say!("  {:?} reads as {}", String::from_utf8_lossy(&data), outcome(&got));
                if let Some(m) = wrong_ref(j, &data, &got) {
                    bad!("journal/corrupt", "{}", m);
                }
                match got {
                    Ret::Done(Ok(_)) => *d.stats.entry("corruption_read_as_a_value").or_insert(0) += 1,
                    _ => *d.stats.entry("corruption_rejected").or_insert(0) += 1,
                }
            }
            JOp::Read { rec, chunk, intr, eio } => {
                let all = *rec == u32::MAX;
                let k = recs.len();
                for (i, r) in recs.iter().enumerate() {
                    if !all && i != *rec as usize % k {
                        continue;
                    }
                    let data = &d.data[r.from..r.to];
                    let got = if all {
                        read_back(data, Read::Slice(data))
                    } else {
                        let mut s = SimRead {
                            data,
                            pos: 0,
                            chunk: *chunk,
                            intr: *intr,
                            eio: *eio,
                            calls: 0,
                            interrupted: false,
                            failed: false,
                            split: 0,
                            intrs: 0,
                        };
                        // the reader outlives the call through a raw pointer only here
                        let p: *mut SimRead = &mut s;
                        let got = read_back(data, Read::Stream(unsafe { &mut *p }));
                        let s = unsafe { &*p };
                        if s.split > 0 {
                            *d.stats.entry("split_read").or_insert(0) += s.split;
                        }
                        if s.intrs > 0 {
                            *d.stats.entry("interrupted_read").or_insert(0) += s.intrs;
                        }
                        if s.failed {
                            *d.stats.entry("read_error").or_insert(0) += 1;
                            if let Ret::Done(Err(_)) = got {
                                // retried
                                read_back(data, Read::Slice(data))
                            } else {
                                got
                            }
                        } else {
                            got
                        }
                    };
                    d.us += 100;
                    digest = note(digest, &got);
                    if let Some(m) = wrong_whole(&got, &r.vals) {
                        bad!("journal/value", "{:?}: {}; stored as {:?}", j.codec, m, String::from_utf8_lossy(data));
                    }
                }
            }
        }
        digest = fnv(digest, &d.data.len().to_le_bytes());
    }
    digest = fnv(digest, &d.data);
    for (k, v) in &d.stats {
        digest = mix(fnv(digest, k.as_bytes()), *v);
    }
    Outcome { viol, digest, trace: digest, steps, stats: d.stats, log, sim_us: d.us, alone: None }
}

/// The record as this codec can hold it.
fn fit(j: &Journal, v: &Vals) -> Vals {
    match v {
        Vals::T(t) if j.text => {
            let mut t = t.clone();
            t.f.resize(if j.codec.self_describing() { 8 } else { 6 }, W::ZERO);
            if j.codec == Codec::Plain {
                t.o = None;
                t.v.clear();
                t.m.clear();
            }
            // as a map holds them
            let mut m: BTreeMap<W2, W> = BTreeMap::new();
            for (k, x) in &t.m {
                m.insert(W2(k.0[1], k.0[0]), *x);
            }
            t.m = m.into_iter().map(|(k, x)| (W([k.1, k.0]), x)).collect();
            Vals::T(t)
        }
        Vals::B(b) if !j.text => {
            let mut b = b.clone();
            b.f.resize(12, W::ZERO);
            Vals::B(b)
        }
        _ => {
            if j.text {
                fit(j, &Vals::T(TextVals::default()))
            } else {
                fit(j, &Vals::B(ByteVals { f: vec![] }))
            }
        }
    }
}
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct W2(u128, u128);

fn note(d: u64, r: &Ret<Result<Vals, String>>) -> u64 {
    match r {
        Ret::Done(Ok(v)) => fnv(d, format!("{:?}", v).as_bytes()),
        Ret::Done(Err(_)) => fnv(d, b"err"),
        _ => fnv(d, b"panic"),
    }
}

fn wrong_whole(got: &Ret<Result<Vals, String>>, want: &Vals) -> Option<String> {
    match got {
        Ret::Done(Ok(v)) if v == want => None,
        r => Some(format!("stored {:?}, read {}", want, outcome(r))),
    }
}

fn wrong_ref(j: &Journal, data: &[u8], got: &Ret<Result<Vals, String>>) -> Option<String> {
    let got = match got {
        Ret::Done(r) => r,
        r => return Some(format!("reading {:?} ended with {}", String::from_utf8_lossy(data), outcome(r))),
    };
    let (f, o, v, m) = match reference(j.text, j.codec, data) {
        Ref::Broken => return None,
        Ref::Fields(f, o, v, m) => (f, o, v, m),
    };
    let told = |why: String| Some(format!("{:?} with {:?}: {}; read as {:?}", String::from_utf8_lossy(data), j.codec, why, got));
    let flat: Vec<Option<Expect>> = f
        .iter()
        .map(|x| x.1)
        .chain(o.iter().copied())
        .chain(v.iter().copied())
        .chain(m.iter().flat_map(|(a, b)| [*a, *b]))
        .collect();
    match got {
        Err(_) => {
            if flat.iter().all(|e| matches!(e, Some(Expect::Must(_)))) {
                return told("an error where every field has a value".into());
            }
            None
        }
        Ok(vals) => {
            if flat.iter().any(|e| matches!(e, Some(Expect::Err))) {
                return told(format!("a value where there is none in {:?}", f.iter().filter(|x| x.1 == Some(Expect::Err)).collect::<Vec<_>>()));
            }
            let val = |e: &Option<Expect>| match e {
                Some(Expect::Must(w) | Expect::May(w)) => Some(*w),
                _ => None,
            };
            let (gf, go, gv, gm): (&[W], Option<W>, &[W], &[(W, W)]) = match vals {
                Vals::T(t) => (&t.f, t.o, &t.v, &t.m),
                Vals::B(b) => (&b.f, None, &[], &[]),
            };
            for ((d, e), g) in f.iter().zip(gf) {
                if val(e).is_some_and(|w| w != *g) {
                    return told(format!("{} denotes {:?}, not {:?}", d, e, g));
                }
            }
            if let Some(e) = &o {
                if val(e).is_some_and(|w| Some(w) != go) {
                    return told(format!("the option denotes {:?}", e));
                }
            }
            if gv.len() != v.len() || gv.iter().zip(&v).any(|(g, e)| val(e).is_some_and(|w| w != *g)) {
                return told(format!("the list denotes {:?}", v));
            }
            if m.iter().all(|(k, x)| val(k).is_some() && val(x).is_some()) {
                let mut want: BTreeMap<W2, W> = BTreeMap::new();
                for (k, x) in &m {
                    let k = val(k).unwrap();
                    want.insert(W2(k.0[1], k.0[0]), val(x).unwrap());
                }
                let want: Vec<(W, W)> = want.into_iter().map(|(k, x)| (W([k.1, k.0]), x)).collect();
                if want != gm {
                    return told(format!("the map denotes {:?}", want));
                }
            }
            None
        }
    }
}

#[allow(dead_code)]
fn _unused<E: de::Error>(_: E) {}
