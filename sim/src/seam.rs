//! The seams: everything the library calls back, under the plan's control.

use crate::node::Eth;
use crate::plan::*;
use crate::rng::{fnv, mix};
use crate::sched::{Pause, Sched};
use crate::val::{Ty, W};
use serde::de::{self, DeserializeSeed, IntoDeserializer, SeqAccess, Visitor};
use serde::ser::{self, Impossible};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt;
use std::io;

/// A property broken: which, the class of breakage (stable under
/// minimisation), and the details.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}

/// The world of one run, shared by its tasks; only the baton holder touches it.
pub struct World {
    /// the property being checked: only its own violations count
    pub prop: String,
    pub sched: Sched,
    pub regs: RefCell<Vec<W>>,
    pub viol: RefCell<Option<Viol>>,
    /// the step that broke, and its register before
    pub bad: RefCell<Option<(Step, W)>>,
    pub digest: Cell<u64>,
    pub log: RefCell<Option<Vec<String>>>,
    pub stats: RefCell<BTreeMap<&'static str, u64>>,
    pub steps: Cell<u64>,
    /// what each key hashed to
    pub hashes: RefCell<BTreeMap<(u8, Ty, W), u64>>,
    pub scribble: u64,
    /// what replaces faults: whether checks apply (always, except for priming)
    pub eths: &'static [&'static dyn Eth; 4],
}
unsafe impl Sync for World {}

impl World {
    pub fn count(&self, k: &'static str) {
        let p = Pause::begin();
        *self.stats.borrow_mut().entry(k).or_insert(0) += 1;
        p.end();
    }
    pub fn note(&self, b: &[u8]) {
        self.digest.set(fnv(mix(self.digest.get(), b.len() as u64), b));
    }
    pub fn line(&self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.borrow_mut().as_mut() {
            l.push(f());
        }
    }
    /// Reports a violation of these properties.  Isolation and independence of
    /// the allocator are about any outcome at all; whether the surroundings are
    /// to blame is decided afterwards, by making the call without them.
    pub fn fail(&self, props: &[&str], class: &str, msg: String, step: impl FnOnce() -> (Step, W)) {
        let any = (self.prop == "C02" || self.prop == "C09") && class != "torn";
        if !any && !props.contains(&self.prop.as_str()) {
            return;
        }
        let mut v = self.viol.borrow_mut();
        if v.is_none() {
            *v = Some(Viol { class: class.to_string(), msg });
            *self.bad.borrow_mut() = Some(step());
        }
    }
    pub fn eth(&self, b: Build) -> &'static dyn Eth {
        self.eths[b as usize]
    }
}

/// The payload of an injected panic.
pub struct Injected(pub u32);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hit {
    Go,
    Fail(u32),
    Part(u32),
    Short(u32),
    Intr,
    Zero,
}

/// How a step's callbacks go.
pub struct Seam<'a> {
    pub w: &'a World,
    pub me: usize,
    pub depth: u32,
    pub evs: &'a [Ev],
    /// callbacks so far
    pub n: u32,
    /// the failure the library was given, if any
    pub failed: Option<Hit>,
    pub panicked: Option<u32>,
    /// callbacks after that failure
    pub after: u32,
    /// held memory changed under a callback
    pub torn: bool,
}

impl<'a> Seam<'a> {
    pub fn new(w: &'a World, me: usize, depth: u32, evs: &'a [Ev]) -> Seam<'a> {
        Seam { w, me, depth, evs, n: 0, failed: None, panicked: None, after: 0, torn: false }
    }

    /// One callback; `held` is memory the library lent for its duration.
    pub fn hit(&mut self, what: &'static str, held: &[u8]) -> Hit {
        let p = Pause::begin();
        let k = self.n;
        self.n += 1;
        let w = self.w;
        w.note(what.as_bytes());
        w.note(held);
        w.line(|| format!("  t{} d{} {}#{} {:?}", self.me, self.depth, what, k, String::from_utf8_lossy(held)));
        if self.failed.is_some() || self.panicked.is_some() {
            self.after += 1;
            p.end();
            return Hit::Go;
        }
        let copy = held.to_vec();
        let mut out = Hit::Go;
        for e in self.evs.iter().filter(|e| e.at == k) {
            match &e.k {
                EvK::Yield => {
                    w.count("yield_in_callback");
                    w.sched.point(self.me, 1 + k as u64);
                }
                EvK::Nest(s) => {
                    w.count("nested_call");
                    crate::exec::run_step(w, self.me, self.depth + 1, s);
                }
                EvK::Fail(c) => out = Hit::Fail(*c),
                EvK::Part(c) => out = Hit::Part(*c),
                EvK::Short(c) => out = Hit::Short(*c),
                EvK::Intr => out = Hit::Intr,
                EvK::Zero => out = Hit::Zero,
                EvK::Panic(c) => {
                    w.count("callback_panic");
                    w.line(|| format!("  t{} panics with {}", self.me, c));
                    self.panicked = Some(*c);
                    if copy != held {
                        self.torn = true;
                    }
                    std::panic::resume_unwind(Box::new(Injected(*c)));
                }
            }
        }
        if copy != held {
            self.torn = true;
            w.line(|| format!("  t{} held memory changed to {:?}", self.me, String::from_utf8_lossy(held)));
        }
        if out != Hit::Go {
            w.line(|| format!("  t{} answers {:?}", self.me, out));
        }
        p.end();
        out
    }

    pub fn set_failed(&mut self, h: Hit, kind: &'static str) {
        let p = Pause::begin();
        self.failed = Some(h);
        self.w.count(kind);
        p.end();
    }
}

/// Runs simulator code on the library's behalf (no counting, no allocation
/// failures).
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    let p = Pause::begin();
    let r = f();
    p.end();
    r
}

// ---- writers ---------------------------------------------------------------

pub struct SimWriter<'a, 'b> {
    pub s: &'b mut Seam<'a>,
    pub got: Vec<u8>,
    pub cap: Option<u32>,
}

impl SimWriter<'_, '_> {
    fn take(&mut self, b: &[u8]) {
        aside(|| self.got.extend_from_slice(b))
    }
}

impl fmt::Write for SimWriter<'_, '_> {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        let b = t.as_bytes();
        let h = self.s.hit("write_str", b);
        if self.s.after > 0 {
            return Err(fmt::Error);
        }
        match h {
            Hit::Fail(_) => {
                self.s.set_failed(h, "write_error");
                return Err(fmt::Error);
            }
            Hit::Part(n) => {
                self.take(&b[..(n as usize).min(b.len())]);
                self.s.set_failed(h, "partial_write_then_error");
                return Err(fmt::Error);
            }
            _ => {}
        }
        if let Some(c) = self.cap {
            let room = (c as usize).saturating_sub(self.got.len());
            if room < b.len() {
                self.take(&b[..room]);
                self.s.set_failed(Hit::Fail(0), "writer_full");
                return Err(fmt::Error);
            }
        }
        self.take(b);
        Ok(())
    }
}

impl io::Write for SimWriter<'_, '_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let h = self.s.hit("write", b);
        if self.s.after > 0 {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        match h {
            Hit::Fail(c) => {
                self.s.set_failed(h, "io_error");
                return Err(io::Error::from_raw_os_error(c as i32));
            }
            Hit::Part(n) => {
                let n = (n as usize).min(b.len());
                if n == 0 {
                    self.s.set_failed(Hit::Zero, "io_write_zero");
                }
                self.take(&b[..n]);
                return Ok(n);
            }
            Hit::Short(n) => {
                self.s.w.count("short_write");
                let n = (n as usize).clamp(1, b.len().max(1)).min(b.len());
                self.take(&b[..n]);
                return Ok(n);
            }
            Hit::Intr => {
                self.s.w.count("interrupted_write");
                return Err(io::ErrorKind::Interrupted.into());
            }
            Hit::Zero => {
                self.s.set_failed(h, "io_write_zero");
                return Ok(0);
            }
            Hit::Go => {}
        }
        if let Some(c) = self.cap {
            let room = (c as usize).saturating_sub(self.got.len());
            if room == 0 && !b.is_empty() {
                self.s.set_failed(Hit::Fail(libc::ENOSPC as u32), "disk_full");
                return Err(io::Error::from_raw_os_error(libc::ENOSPC));
            }
            let n = room.min(b.len());
            self.take(&b[..n]);
            return Ok(n);
        }
        self.take(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---- serde: errors ---------------------------------------------------------

pub const CUSTOM: u32 = 0xC0570;

#[derive(Clone, PartialEq, Debug)]
pub struct SimErr(pub u32);

struct Count(usize);
impl fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "simulated error {}", self.0)
    }
}
impl std::error::Error for SimErr {}
impl ser::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> SimErr {
        let mut c = Count(0);
        let _ = fmt::Write::write_fmt(&mut c, format_args!("{}", m));
        SimErr(CUSTOM)
    }
}
impl de::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> SimErr {
        let mut c = Count(0);
        let _ = fmt::Write::write_fmt(&mut c, format_args!("{}", m));
        SimErr(CUSTOM)
    }
}

// ---- serde: the serializer -------------------------------------------------

#[derive(Clone, PartialEq, Debug)]
pub enum Put {
    Str(Vec<u8>),
    Bytes(Vec<u8>),
    Other(&'static str),
}

pub struct SimSer<'a, 'b> {
    pub s: &'b mut Seam<'a>,
    pub puts: &'b RefCell<Vec<Put>>,
    pub hr: bool,
    pub token: u64,
}

impl SimSer<'_, '_> {
    fn end(self, p: Put) -> Result<u64, SimErr> {
        let held: Vec<u8>;
        let h = match &p {
            Put::Str(b) | Put::Bytes(b) => {
                held = aside(|| b.clone());
                self.s.hit("serialize", &held)
            }
            Put::Other(n) => self.s.hit(n, b""),
        };
        aside(|| self.puts.borrow_mut().push(p));
        if let Hit::Fail(c) = h {
            self.s.set_failed(h, "serializer_error");
            return Err(SimErr(c));
        }
        Ok(self.token)
    }
    fn lent(self, b: &[u8], str: bool) -> Result<u64, SimErr> {
        let h = self.s.hit(if str { "serialize_str" } else { "serialize_bytes" }, b);
        aside(|| {
            let v = b.to_vec();
            self.puts.borrow_mut().push(if str { Put::Str(v) } else { Put::Bytes(v) })
        });
        if let Hit::Fail(c) = h {
            self.s.set_failed(h, "serializer_error");
            return Err(SimErr(c));
        }
        Ok(self.token)
    }
}

macro_rules! ser_other {
    ($($m:ident($t:ty)),*) => {$( fn $m(self, _: $t) -> Result<u64, SimErr> { self.end(Put::Other(stringify!($m))) } )*};
}

impl ser::Serializer for SimSer<'_, '_> {
    type Ok = u64;
    type Error = SimErr;
    type SerializeSeq = Impossible<u64, SimErr>;
    type SerializeTuple = Impossible<u64, SimErr>;
    type SerializeTupleStruct = Impossible<u64, SimErr>;
    type SerializeTupleVariant = Impossible<u64, SimErr>;
    type SerializeMap = Impossible<u64, SimErr>;
    type SerializeStruct = Impossible<u64, SimErr>;
    type SerializeStructVariant = Impossible<u64, SimErr>;

    ser_other! { serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_i128(i128),
    serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_u128(u128), serialize_f32(f32), serialize_f64(f64), serialize_char(char) }

    fn serialize_str(self, v: &str) -> Result<u64, SimErr> {
        self.lent(v.as_bytes(), true)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<u64, SimErr> {
        self.lent(v, false)
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<u64, SimErr> {
        // A streaming format: the text is written piece by piece.
        struct Pieces(Vec<u8>);
        impl fmt::Write for Pieces {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                aside(|| self.0.extend_from_slice(s.as_bytes()));
                Ok(())
            }
        }
        let mut p = Pieces(Vec::new());
        if fmt::Write::write_fmt(&mut p, format_args!("{}", v)).is_err() {
            return Err(SimErr(CUSTOM));
        }
        self.end(Put::Str(p.0))
    }
    fn serialize_none(self) -> Result<u64, SimErr> {
        self.end(Put::Other("serialize_none"))
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<u64, SimErr> {
        self.end(Put::Other("serialize_some"))
    }
    fn serialize_unit(self) -> Result<u64, SimErr> {
        self.end(Put::Other("serialize_unit"))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<u64, SimErr> {
        self.end(Put::Other("serialize_unit_struct"))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u64, SimErr> {
        self.end(Put::Other("serialize_unit_variant"))
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<u64, SimErr> {
        self.end(Put::Other("serialize_newtype_struct"))
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u64, SimErr> {
        self.end(Put::Other("serialize_newtype_variant"))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, SimErr> {
        self.end(Put::Other("serialize_seq")).and(Err(SimErr(CUSTOM)))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeSeq, SimErr> {
        self.end(Put::Other("serialize_tuple")).and(Err(SimErr(CUSTOM)))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, SimErr> {
        self.end(Put::Other("serialize_tuple_struct")).and(Err(SimErr(CUSTOM)))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, SimErr> {
        self.end(Put::Other("serialize_tuple_variant")).and(Err(SimErr(CUSTOM)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SimErr> {
        self.end(Put::Other("serialize_map")).and(Err(SimErr(CUSTOM)))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SimErr> {
        self.end(Put::Other("serialize_struct")).and(Err(SimErr(CUSTOM)))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SimErr> {
        self.end(Put::Other("serialize_struct_variant")).and(Err(SimErr(CUSTOM)))
    }
    fn is_human_readable(&self) -> bool {
        self.hr
    }
}

// ---- serde: the deserializer -----------------------------------------------

pub struct SimDe<'a, 'b, 'de> {
    pub s: &'b mut Seam<'a>,
    pub input: &'de In,
    pub hr: bool,
    pub post: Option<u32>,
    /// elements taken from a sequence
    pub pulls: &'b Cell<u32>,
    /// whether the visitor was given anything
    pub visited: &'b Cell<bool>,
    /// the error the visitor itself returned
    pub visitor_err: &'b Cell<Option<u32>>,
    /// the error the simulator injected
    pub injected: &'b Cell<Option<u32>>,
}

impl<'a, 'b, 'de> SimDe<'a, 'b, 'de> {
    fn go<V: Visitor<'de>>(self, what: &'static str, v: V) -> Result<V::Value, SimErr> {
        let h = self.s.hit(what, b"");
        if let Hit::Fail(c) = h {
            self.s.set_failed(h, "deserializer_error");
            self.injected.set(Some(c));
            return Err(SimErr(c));
        }
        self.visited.set(true);
        let post = self.post;
        let r = self.visit(v)?;
        // the format itself finds something wrong behind the value
        if let Some(c) = post {
            drop(r);
            return Err(SimErr(c));
        }
        Ok(r)
    }

    fn visit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        let r: Result<V::Value, SimErr> = match self.input {
            In::Str(Mode::Borrowed, s) => v.visit_borrowed_str(s),
            In::Str(Mode::Transient, s) => {
                // a buffer the format reuses: it is overwritten right afterwards
                let mut t = aside(|| s.clone());
                let r = v.visit_str(&t);
                aside(|| unsafe { t.as_bytes_mut().fill(b'#') });
                aside(|| drop(t));
                r
            }
            In::Str(Mode::Owned, s) => {
                let t = aside(|| s.clone());
                v.visit_string(t)
            }
            In::Bytes(Mode::Borrowed, s) => v.visit_borrowed_bytes(s),
            In::Bytes(Mode::Transient, s) => {
                let mut t = aside(|| s.clone());
                let r = v.visit_bytes(&t);
                t.fill(b'#');
                aside(|| drop(t));
                r
            }
            In::Bytes(Mode::Owned, s) => {
                let t = aside(|| s.clone());
                v.visit_byte_buf(t)
            }
            In::Seq(e, hint, endless) => v.visit_seq(SimSeq {
                s: &mut *self.s,
                elems: e,
                hint: *hint,
                endless: *endless,
                i: 0,
                pulls: self.pulls,
                injected: self.injected,
            }),
            In::U8(x) => v.visit_u8(*x),
            In::U64(x) => v.visit_u64(*x),
            In::I8(x) => v.visit_i8(*x),
            In::I64(x) => v.visit_i64(*x),
            In::U128(x) => v.visit_u128(x.0[0]),
            In::I128(x) => v.visit_i128(x.0[0] as i128),
            In::F32(x) => v.visit_f32(f32::from_bits(*x)),
            In::F64(x) => v.visit_f64(f64::from_bits(*x)),
            In::Num(s, single) => match (s.parse::<u64>(), s.parse::<i64>()) {
                (Ok(x), _) => v.visit_u64(x),
                (_, Ok(x)) => v.visit_i64(x),
                _ if *single => v.visit_f32(s.parse().unwrap_or(f32::NAN)),
                _ => v.visit_f64(s.parse().unwrap_or(f64::NAN)),
            },
            In::Bool(x) => v.visit_bool(*x),
            In::Char(x) => v.visit_char(*x),
            In::Unit => v.visit_unit(),
            In::None => v.visit_none(),
            In::Some(x) => {
                let s = &mut *self.s;
                v.visit_some(SimDe { s, input: x, hr: self.hr, post: None, pulls: self.pulls, visited: self.visited, visitor_err: self.visitor_err, injected: self.injected })
            }
            In::Newtype(x) => {
                let s = &mut *self.s;
                v.visit_newtype_struct(SimDe { s, input: x, hr: self.hr, post: None, pulls: self.pulls, visited: self.visited, visitor_err: self.visitor_err, injected: self.injected })
            }
            In::Map => v.visit_map(NoMap),
        };
        if let Err(e) = &r {
            if self.visitor_err.get().is_none() {
                self.visitor_err.set(Some(e.0));
            }
            if self.s.failed.is_none() {
                self.s.failed = Some(Hit::Fail(e.0));
            }
        }
        r
    }
}

struct NoMap;
impl<'de> de::MapAccess<'de> for NoMap {
    type Error = SimErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, _: K) -> Result<Option<K::Value>, SimErr> {
        Ok(None)
    }
    fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, _: K) -> Result<K::Value, SimErr> {
        Err(SimErr(CUSTOM))
    }
}

pub struct SimSeq<'a, 'b, 'de> {
    s: &'b mut Seam<'a>,
    elems: &'de [Elem],
    hint: Option<Option<u32>>,
    endless: bool,
    i: usize,
    pulls: &'b Cell<u32>,
    injected: &'b Cell<Option<u32>>,
}

struct ElemDe<'de>(&'de Elem);
impl<'de> de::Deserializer<'de> for ElemDe<'de> {
    type Error = SimErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        match self.0 {
            Elem::U8(x) => v.visit_u8(*x),
            Elem::U64(x) => v.visit_u64(*x),
            Elem::I64(x) => v.visit_i64(*x),
            Elem::F64(x) => v.visit_f64(f64::from_bits(*x)),
            Elem::Str(x) => v.visit_str(x),
            Elem::Bool(x) => v.visit_bool(*x),
            Elem::Unit => v.visit_unit(),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> SeqAccess<'de> for SimSeq<'_, '_, 'de> {
    type Error = SimErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SimErr> {
        self.pulls.set(self.pulls.get() + 1);
        if self.pulls.get() > 4096 {
            // somebody who never stops is stopped here; the check fails anyway
            return Err(SimErr(CUSTOM));
        }
        let h = self.s.hit("next_element", b"");
        if let Hit::Fail(c) = h {
            self.s.set_failed(h, "sequence_error");
            self.injected.set(Some(c));
            return Err(SimErr(c));
        }
        let r = match self.elems.get(self.i) {
            Some(e) => seed.deserialize(ElemDe(e)).map(Some),
            None if self.endless => seed.deserialize(7u8.into_deserializer()).map(Some),
            None => Ok(None),
        };
        self.i += 1;
        if let Err(e) = &r {
            if self.s.failed.is_none() {
                self.s.failed = Some(Hit::Fail(e.0));
            }
        }
        r
    }
    fn size_hint(&self) -> Option<usize> {
        match self.hint {
            None if self.endless => None,
            None => Some(self.elems.len() - self.i.min(self.elems.len())),
            Some(Some(h)) if h & 0xc000_0000 == COUNTS_DOWN => Some(((h & !COUNTS_DOWN) as usize).saturating_sub(self.i)),
            Some(h) => h.map(|x| x as usize),
        }
    }
}

macro_rules! de_methods {
    ($($m:ident)*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> { self.go(stringify!($m), v) }
    )*};
}

impl<'de> de::Deserializer<'de> for SimDe<'_, '_, 'de> {
    type Error = SimErr;
    de_methods! {
        deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64
        deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option
        deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SimErr> {
        self.go("deserialize_unit_struct", v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, SimErr> {
        self.go("deserialize_newtype_struct", v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, SimErr> {
        self.go("deserialize_tuple", v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, SimErr> {
        self.go("deserialize_tuple_struct", v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, SimErr> {
        self.go("deserialize_struct", v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, SimErr> {
        self.go("deserialize_enum", v)
    }
    fn is_human_readable(&self) -> bool {
        self.hr
    }
}

// ---- iterators -------------------------------------------------------------

/// The control side of a fold's iterator: answers the index of the next item.
pub struct SimIter<'a, 'b> {
    pub s: &'b mut Seam<'a>,
    pub i: usize,
    pub len: usize,
    pub ended: bool,
    /// calls after the end
    pub beyond: u32,
}

impl SimIter<'_, '_> {
    pub fn next(&mut self) -> Option<usize> {
        if self.ended {
            self.beyond += 1;
            if self.beyond > 64 {
                std::panic::resume_unwind(Box::new(Injected(u32::MAX)));
            }
            // an iterator that is not fused may well go on
            return if self.len > 0 { Some(0) } else { None };
        }
        self.s.hit("next", b"");
        if self.i >= self.len {
            self.ended = true;
            return None;
        }
        self.i += 1;
        Some(self.i - 1)
    }
}
