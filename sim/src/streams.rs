//! World C (streams): public keys written to and read from serde streams whose
//! transport misbehaves: short and interrupted reads and writes, errors and end
//! of stream at any byte, corruption, and every way a format may hand over data.
use crate::ctx::Cx;
use crate::gen;
use crate::model::{arith::*, codec, curve, Pt};
use crate::ops;
use crate::plan::Step;
use crate::rng::{mix2, Rng};
use libsecp256k1::PublicKey;
use serde::de::{self, Visitor};
use serde::{Deserialize, Serialize};
use std::fmt;
use std::io;

pub fn plan(_prop: &str, seed: u64) -> Vec<Step> {
    let mut r = Rng::new(mix2(seed, 1));
    let n = 6 + r.below(30);
    let mut t = 0;
    let faulty = r.p(4, 5);
    (0..n)
        .map(|_| {
            t += r.log(50_000) as u64;
            Step { kind: r.weighted(&[10, 10, 16, 10, 6, 8, 4]) as u8, at: t, seed: r.u64(), fault: faulty }
        })
        .collect()
}

// ---- a format of our own, every hand-over under the simulator's control ----
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FErr {
    Injected(u32),
    Custom(String),
}
impl fmt::Display for FErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for FErr {}
impl de::Error for FErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        FErr::Custom(m.to_string())
    }
}
impl serde::ser::Error for FErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        FErr::Custom(m.to_string())
    }
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct FormatPanic(pub u32);

/// what the library handed to the serializer
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Out {
    Str(String),
    Bytes(Vec<u8>),
    Other(&'static str),
}
pub struct SimSer<'a> {
    pub human: bool,
    pub out: &'a mut Vec<Out>,
    /// 1: error at the hand-over, 2: panic there, 3: panic when asked for the kind
    pub fail: u32,
}
impl<'a> SimSer<'a> {
    fn put(self, o: Out) -> Result<(), FErr> {
        match self.fail {
            1 => Err(FErr::Injected(1)),
            2 => std::panic::panic_any(FormatPanic(2)),
            _ => {
                self.out.push(o);
                Ok(())
            }
        }
    }
}
macro_rules! ser_other {
    ($($f:ident($($t:ty),*);)*) => {$(
        fn $f(self, $(_: $t),*) -> Result<(), FErr> { self.put(Out::Other(stringify!($f))) }
    )*};
}
type No = serde::ser::Impossible<(), FErr>;
impl<'a> serde::Serializer for SimSer<'a> {
    type Ok = ();
    type Error = FErr;
    type SerializeSeq = No;
    type SerializeTuple = TupleSer<'a>;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn is_human_readable(&self) -> bool {
        if self.fail == 3 {
            std::panic::panic_any(FormatPanic(3));
        }
        crate::calls::callback();
        self.human
    }
    fn serialize_str(self, v: &str) -> Result<(), FErr> {
        crate::calls::callback();
        let v = v.to_string();
        self.put(Out::Str(v))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), FErr> {
        crate::calls::callback();
        let v = v.to_vec();
        self.put(Out::Bytes(v))
    }
    ser_other! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32);
        serialize_f64(f64); serialize_char(char); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
        serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), FErr> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), FErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), FErr> {
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, FErr> {
        Err(FErr::Custom("seq".into()))
    }
    fn serialize_tuple(self, n: usize) -> Result<TupleSer<'a>, FErr> {
        let _ = n;
        Ok(TupleSer { human: self.human, out: self.out, fail: self.fail })
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, FErr> {
        Err(FErr::Custom("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, FErr> {
        Err(FErr::Custom("variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, FErr> {
        Err(FErr::Custom("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, FErr> {
        Err(FErr::Custom("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, FErr> {
        Err(FErr::Custom("variant".into()))
    }
}
/// tuples of keys: one hand-over per key
pub struct TupleSer<'a> {
    human: bool,
    out: &'a mut Vec<Out>,
    fail: u32,
}
impl<'a> serde::ser::SerializeTuple for TupleSer<'a> {
    type Ok = ();
    type Error = FErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), FErr> {
        v.serialize(SimSer { human: self.human, out: self.out, fail: self.fail })
    }
    fn end(self) -> Result<(), FErr> {
        Ok(())
    }
}

/// how the simulated format delivers
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Str,
    BorrowedStr,
    String,
    Bytes,
    BorrowedBytes,
    ByteBuf,
    Seq,
    U64,
    Unit,
    None,
    Some,
    Newtype,
    Map,
    Bool,
}
pub struct SimDe<'de> {
    pub human: bool,
    pub how: How,
    pub data: &'de [u8],
    /// 1: error instead of delivering, 2: panic instead, 3: panic when asked for
    /// the kind, 4: deliver, then error, 5: deliver, then panic
    pub fail: u32,
    pub asked: std::rc::Rc<std::cell::RefCell<Vec<&'static str>>>,
}
struct SeqOf<'de>(&'de [u8], usize);
impl<'de> de::SeqAccess<'de> for SeqOf<'de> {
    type Error = FErr;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, FErr> {
        if self.1 >= self.0.len() {
            return Ok(None);
        }
        let b = self.0[self.1];
        self.1 += 1;
        s.deserialize(de::value::U8Deserializer::<FErr>::new(b)).map(Some)
    }
}
struct NoMap;
impl<'de> de::MapAccess<'de> for NoMap {
    type Error = FErr;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, _: K) -> Result<Option<K::Value>, FErr> {
        Ok(None)
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, _: V) -> Result<V::Value, FErr> {
        Err(FErr::Custom("empty".into()))
    }
}
impl<'de> SimDe<'de> {
    fn go<V: Visitor<'de>>(self, what: &'static str, v: V) -> Result<V::Value, FErr> {
        self.asked.borrow_mut().push(what);
        crate::calls::callback();
        match self.fail {
            1 => return Err(FErr::Injected(11)),
            2 => std::panic::panic_any(FormatPanic(12)),
            _ => {}
        }
        let d = self.data;
        let txt = || String::from_utf8_lossy(d).to_string();
        let r = match self.how {
            How::Str => {
                // transient text, overwritten as soon as the visitor returns
                let mut t = txt();
                let r = v.visit_str(&t);
                unsafe { t.as_bytes_mut().fill(b'!') };
                r
            }
            How::BorrowedStr => match std::str::from_utf8(d) {
                Ok(s) => v.visit_borrowed_str(s),
                Err(_) => return Err(FErr::Injected(13)),
            },
            How::String => v.visit_string(txt()),
            How::Bytes => {
                let mut t = d.to_vec();
                let r = v.visit_bytes(&t);
                t.fill(0x55);
                r
            }
            How::BorrowedBytes => v.visit_borrowed_bytes(d),
            How::ByteBuf => v.visit_byte_buf(d.to_vec()),
            How::Seq => v.visit_seq(SeqOf(d, 0)),
            How::U64 => v.visit_u64(d.len() as u64),
            How::Unit => v.visit_unit(),
            How::None => v.visit_none(),
            How::Some => v.visit_some(SimDe { how: How::Str, fail: 0, ..self_clone(&self) }),
            How::Newtype => v.visit_newtype_struct(SimDe { how: How::Bytes, fail: 0, ..self_clone(&self) }),
            How::Map => v.visit_map(NoMap),
            How::Bool => v.visit_bool(true),
        };
        crate::calls::callback();
        match self.fail {
            4 => Err(FErr::Injected(14)),
            5 => std::panic::panic_any(FormatPanic(15)),
            _ => r,
        }
    }
}
fn self_clone<'de>(d: &SimDe<'de>) -> SimDe<'de> {
    SimDe { human: d.human, how: d.how, data: d.data, fail: 0, asked: d.asked.clone() }
}
macro_rules! de_all {
    ($($f:ident($($a:ident: $t:ty),*);)*) => {$(
        fn $f<V: Visitor<'de>>(self, $($a: $t,)* v: V) -> Result<V::Value, FErr> { $(let _ = $a;)* self.go(stringify!($f), v) }
    )*};
}
impl<'de> serde::Deserializer<'de> for SimDe<'de> {
    type Error = FErr;
    fn is_human_readable(&self) -> bool {
        if self.fail == 3 {
            std::panic::panic_any(FormatPanic(13));
        }
        crate::calls::callback();
        self.human
    }
    de_all! {
        deserialize_any(); deserialize_bool(); deserialize_i8(); deserialize_i16(); deserialize_i32(); deserialize_i64();
        deserialize_u8(); deserialize_u16(); deserialize_u32(); deserialize_u64(); deserialize_f32(); deserialize_f64();
        deserialize_char(); deserialize_str(); deserialize_string(); deserialize_bytes(); deserialize_byte_buf();
        deserialize_option(); deserialize_unit(); deserialize_unit_struct(n: &'static str);
        deserialize_newtype_struct(n: &'static str); deserialize_seq(); deserialize_tuple(n: usize);
        deserialize_tuple_struct(n: &'static str, l: usize); deserialize_map();
        deserialize_struct(n: &'static str, f: &'static [&'static str]);
        deserialize_enum(n: &'static str, f: &'static [&'static str]); deserialize_identifier(); deserialize_ignored_any();
    }
}

// ---- simulated transport ----
struct SimWriter {
    got: Vec<u8>,
    script: Vec<u8>,
    i: usize,
    fail_at: Option<usize>,
    failed: bool,
    kind: io::ErrorKind,
    faults: Vec<&'static str>,
}
impl io::Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            // a writer that works again after its error: a careless caller would lose data
            self.got.extend_from_slice(b);
            return Ok(b.len());
        }
        let k = self.script.get(self.i).copied().unwrap_or(255);
        self.i += 1;
        if k == 1 {
            self.faults.push("write_interrupted");
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = b.len();
        if k < 64 && n > 1 {
            n = 1 + (k as usize) % n;
            self.faults.push("write_short");
        }
        if let Some(f) = self.fail_at {
            if self.got.len() + n > f {
                n = f - self.got.len();
                if n == 0 {
                    self.failed = true;
                    self.faults.push("write_error");
                    return Err(io::Error::new(self.kind, "disk full"));
                }
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct SimReader<'a> {
    data: &'a [u8],
    pos: usize,
    script: Vec<u8>,
    i: usize,
    fail_at: Option<usize>,
    kind: io::ErrorKind,
    faults: Vec<&'static str>,
}
impl<'a> io::Read for SimReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = self.script.get(self.i).copied().unwrap_or(255);
        self.i += 1;
        if k == 1 {
            self.faults.push("read_interrupted");
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                self.fail_at = None;
                self.faults.push("read_error");
                return Err(io::Error::new(self.kind, "connection reset"));
            }
        }
        let mut n = b.len().min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        if k < 64 && n > 1 {
            n = 1 + (k as usize) % n;
            self.faults.push("read_short");
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn script(r: &mut Rng, on: bool) -> Vec<u8> {
    if !on {
        return vec![];
    }
    let mode = r.below(4);
    (0..r.log(120))
        .map(|_| match mode {
            0 => 255,
            1 => 0,
            2 => r.below(3) as u8,
            _ => r.u64() as u8,
        })
        .collect()
}
fn kind(r: &mut Rng) -> io::ErrorKind {
    use io::ErrorKind::*;
    *r.pick(&[Other, ConnectionReset, WouldBlock, TimedOut, BrokenPipe, UnexpectedEof, PermissionDenied, WriteZero])
}

/// what a decoder of these bytes may return: the key, and whether it must
fn key_of(b: &[u8]) -> Option<Pt> {
    match b.len() {
        33 | 64 | 65 => codec::pk_slice(b, 0).ok(),
        _ => None,
    }
}
/// text to bytes, forgiving about padding and spare bits; and whether it was canonical
fn text(t: &str) -> (Option<Vec<u8>>, bool) {
    if let Some(v) = codec::b64dec(t) {
        return (Some(v), true);
    }
    let s = t.trim_end_matches('=');
    const A: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut acc = 0u32;
    let mut n = 0;
    let mut o = vec![];
    for c in s.chars() {
        match A.find(c) {
            Some(i) => {
                acc = acc << 6 | i as u32;
                n += 6;
                if n >= 8 {
                    n -= 8;
                    o.push((acc >> n) as u8);
                }
            }
            None => return (None, false),
        }
    }
    (Some(o), false)
}

const P: [&str; 2] = ["C07", "C06"];

fn judge(cx: &mut Cx, what: &str, got: &Result<PublicKey, String>, bytes: Option<&[u8]>, must: bool, note: &str) {
    let want = bytes.and_then(key_of);
    let g = got.as_ref().ok().map(ops::pt_pk);
    let ok = match (&g, &want) {
        (Some(a), Some(b)) => a == b,
        (None, Some(_)) => !must,
        (Some(_), None) => false,
        (None, None) => true,
    };
    cx.count(if g.is_some() { "probe:read_ok" } else { "probe:read_refused" });
    cx.check(ok, &P, "stream-key-mismatch", || {
        format!(
            "{} ({}) gives {} but the bytes delivered ({}) encode {}",
            what, note,
            g.as_ref().map(ops::ptx).unwrap_or_else(|| format!("an error ({:?})", got.as_ref().err())),
            bytes.map(hex).unwrap_or_else(|| "none".into()),
            want.as_ref().map(ops::ptx).unwrap_or_else(|| "no key".into())
        )
    });
}

pub fn run(cx: &mut Cx, _seed: u64, steps: &[Step]) {
    let mut order = crate::ctx::FNV0;
    for (i, s) in steps.iter().enumerate() {
        if cx.viol.is_some() {
            return;
        }
        cx.step = i as u64;
        cx.now = s.at;
        let r = &mut Rng::new(s.seed);
        let q = gen::point(r);
        let k = match ops::mk_pk(cx, r, &q) {
            Some(k) => k,
            None => continue,
        };
        match s.kind {
            0 => write_json(cx, r, &k, &q, s.fault),
            1 => write_bin(cx, r, &k, &q, s.fault),
            2 => read_json(cx, r, &q, s.fault),
            3 => read_bin(cx, r, &q, s.fault),
            4 => own_write(cx, r, &k, &q, s.fault),
            5 => own_read(cx, r, &q, s.fault),
            _ => many(cx, r, s.fault),
        }
        order = cx.fault_order(order, s.kind);
    }
    cx.st.inter.insert(order);
    cx.st.sim_ns += cx.now * 1000;
}
fn writer(r: &mut Rng, on: bool, total: usize) -> SimWriter {
    SimWriter {
        got: vec![],
        script: script(r, on),
        i: 0,
        fail_at: if on && r.p(1, 2) { Some(r.below(total + 2)) } else { None },
        failed: false,
        kind: kind(r),
        faults: vec![],
    }
}
fn after_write(cx: &mut Cx, w: &SimWriter, what: &str, res: &Result<(), (Option<io::ErrorKind>, String)>, want: &[u8]) {
    for f in &w.faults {
        cx.fault(f);
    }
    cx.log(format!("{} {} bytes failed={} -> {}", what, w.got.len(), w.failed, match res { Ok(()) => "ok".into(), Err(e) => format!("{:?}", e.0) }));
    cx.seen(&[30, what.len() as u64, w.failed as u64, w.got.len() as u64, w.i.min(60) as u64]);
    if w.failed {
        cx.check(res.is_err(), &P, "write-error-lost", || format!("{}: the writer failed with {:?} but the caller saw success", what, w.kind));
        if let Err((Some(k), _)) = res {
            cx.check(*k == w.kind, &P, "write-error-changed", || format!("{}: {:?} became {:?}", what, w.kind, k));
        }
        cx.check(want.starts_with(&w.got[..w.got.len().min(want.len())]), &P, "wrong-bytes-written", || format!("{}: {}", what, hex(&w.got)));
    } else {
        cx.check(res.is_ok() && w.got == want, &P, "wrong-bytes-written", || {
            format!("{}: {:?} wrote {} instead of {}", what, res, hex(&w.got), hex(want))
        });
    }
}
fn write_json(cx: &mut Cx, r: &mut Rng, k: &PublicKey, q: &Pt, on: bool) {
    let want = format!("\"{}\"", codec::b64enc(&curve::full(q)));
    let mut w = writer(r, on, want.len());
    let k = *k;
    let res = cx.lib("json_write", &P, || serde_json::to_writer(&mut w, &k));
    if let Some(res) = res {
        let res = res.map_err(|e| (e.io_error_kind(), e.to_string()));
        after_write(cx, &w, "json_write", &res, want.as_bytes());
    }
    // the next attempt on a healthy stream
    let s = cx.lib("json_write", &P, || serde_json::to_string(&k).ok());
    cx.check(s == Some(Some(want)), &P, "wrong-bytes-written", || format!("{:?}", s));
}
fn write_bin(cx: &mut Cx, r: &mut Rng, k: &PublicKey, q: &Pt, on: bool) {
    let mut want = 65u64.to_le_bytes().to_vec();
    want.extend_from_slice(&curve::full(q));
    let mut w = writer(r, on, want.len());
    let k = *k;
    let res = cx.lib("bin_write", &P, || bincode::serialize_into(&mut w, &k));
    if let Some(res) = res {
        let res = res.map_err(|e| {
            (match &*e { bincode::ErrorKind::Io(e) => Some(e.kind()), _ => None }, e.to_string())
        });
        after_write(cx, &w, "bin_write", &res, &want);
    }
    let s = cx.lib("bin_write", &P, || bincode::serialize(&k).ok());
    cx.check(s.as_ref() == Some(&Some(want)), &P, "wrong-bytes-written", || format!("{:?}", s));
}
/// key bytes in one of the encodings, perhaps damaged
fn body(r: &mut Rng, q: &Pt, on: bool, cx: &mut Cx) -> Vec<u8> {
    let f = curve::full(q);
    let mut b = match r.below(4) {
        0 => curve::compressed(q).to_vec(),
        1 => f[1..].to_vec(),
        2 if r.p(1, 3) => {
            let mut h = f.to_vec();
            h[0] = 6 + (h[64] & 1) ^ (r.p(1, 4) as u8);
            h
        }
        _ => f.to_vec(),
    };
    if on && r.p(1, 3) {
        let o = r.bytes(64);
        let how = gen::damage(r, &mut b, &o);
        cx.fault(&format!("stream_{}", how));
    }
    b
}
fn read_json(cx: &mut Cx, r: &mut Rng, q: &Pt, on: bool) {
    let b = body(r, q, on, cx);
    let mut t = codec::b64enc(&b);
    if on {
        match r.below(12) {
            0 => t = t.replace('=', ""),
            1 => t = t.replace('+', "-").replace('/', "_"),
            2 => t.push('='),
            3 => t.insert(r.below(t.len() + 1).min(t.len()), *r.pick(&[' ', '\n', 'A', '=', '!'])),
            4 => t = hex(&b),
            5 => {
                // spare bits set
                if let Some(i) = t.find('=') {
                    if i > 0 {
                        let c = t.as_bytes()[i - 1];
                        let n = if c.is_ascii_alphanumeric() { c + 1 } else { b'B' };
                        t.replace_range(i - 1..i, &(n as char).to_string());
                    }
                }
            }
            _ => {}
        }
    }
    let mut j = serde_json::to_string(&t).unwrap().into_bytes();
    if r.p(1, 8) && t.len() > 3 {
        // the same text, escaped
        j = format!("\"\\u{:04x}{}", t.as_bytes()[0], &serde_json::to_string(&t[1..]).unwrap()[1..]).into_bytes();
    }
    if on && r.p(1, 4) {
        let o = r.bytes(40);
        let how = gen::damage(r, &mut j, &o);
        cx.fault(&format!("stream_{}", how));
    }
    // what the (healthy) format itself says was delivered
    let delivered: Option<String> = serde_json::from_slice::<String>(&j).ok();
    let (bytes, canon) = delivered.as_deref().map(text).unwrap_or((None, false));
    cx.seen(&[31, j.len() as u64, canon as u64, bytes.as_ref().map(|b| b.len()).unwrap_or(0) as u64, delivered.is_some() as u64]);
    let a = cx.lib("json_read", &P, || serde_json::from_slice::<PublicKey>(&j).map_err(|e| e.to_string()));
    if let Some(a) = &a {
        cx.log(format!("json slice {} -> {}", hex(&j), a.as_ref().map(ops::pk_desc).unwrap_or("err".into())));
        judge(cx, "json from a slice", a, bytes.as_deref(), canon, &String::from_utf8_lossy(&j));
    }
    // through a stream that misbehaves
    let mut rd = SimReader {
        data: &j,
        pos: 0,
        script: script(r, on),
        i: 0,
        fail_at: if on && r.p(1, 3) { Some(r.below(j.len() + 1)) } else { None },
        kind: kind(r),
        faults: vec![],
    };
    let fails = rd.fail_at.is_some();
    let a = cx.lib("json_read", &P, || serde_json::from_reader::<_, PublicKey>(&mut rd).map_err(|e| (e.io_error_kind(), e.to_string())));
    for f in &rd.faults {
        cx.fault(f);
    }
    let read_err = rd.faults.contains(&"read_error");
    let rk = rd.kind;
    if let Some(a) = a {
        cx.log(format!("json reader -> {}", a.as_ref().map(ops::pk_desc).unwrap_or("err".into())));
        if read_err {
            cx.check(a.is_err(), &P, "read-error-lost", || format!("the stream failed with {:?} but a key came out", rk));
            if let Err((Some(k), _)) = &a {
                cx.check(*k == rk, &P, "read-error-changed", || format!("{:?} became {:?}", rk, k));
            }
        } else if !fails {
            let a = a.map_err(|e| e.1);
            judge(cx, "json from a stream", &a, bytes.as_deref(), canon, &String::from_utf8_lossy(&j));
        }
        // retry on a healthy stream
        let good = serde_json::to_string(&codec::b64enc(&curve::full(q))).unwrap();
        let a = cx.lib("json_read", &P, || serde_json::from_reader::<_, PublicKey>(good.as_bytes()).map_err(|e| e.to_string()));
        if let Some(a) = a {
            judge(cx, "json retried", &a, Some(&curve::full(q)), true, &good);
        }
    }
}
fn read_bin(cx: &mut Cx, r: &mut Rng, q: &Pt, on: bool) {
    use bincode::Options;
    let opt = || bincode::DefaultOptions::new().with_fixint_encoding().allow_trailing_bytes().with_limit(4096);
    let b = body(r, q, on, cx);
    let mut j = (b.len() as u64).to_le_bytes().to_vec();
    j.extend_from_slice(&b);
    if on && r.p(1, 4) {
        let o = r.bytes(40);
        let how = gen::damage(r, &mut j, &o);
        cx.fault(&format!("stream_{}", how));
    }
    let delivered: Option<Vec<u8>> = if j.len() >= 8 {
        let n = u64::from_le_bytes(j[..8].try_into().unwrap()) as usize;
        if n <= 4088 && j.len() - 8 >= n { Some(j[8..8 + n].to_vec()) } else { None }
    } else {
        None
    };
    cx.seen(&[32, j.len() as u64, delivered.as_ref().map(|b| b.len()).unwrap_or(0) as u64]);
    let a = cx.lib("bin_read", &P, || opt().deserialize::<PublicKey>(&j).map_err(|e| e.to_string()));
    if let Some(a) = &a {
        cx.log(format!("bin slice {} -> {}", hex(&j), a.as_ref().map(ops::pk_desc).unwrap_or("err".into())));
        judge(cx, "bincode from a slice", a, delivered.as_deref(), true, &hex(&j));
    }
    let mut rd = SimReader {
        data: &j,
        pos: 0,
        script: script(r, on),
        i: 0,
        fail_at: if on && r.p(1, 3) { Some(r.below(j.len() + 1)) } else { None },
        kind: kind(r),
        faults: vec![],
    };
    let fails = rd.fail_at.is_some();
    let a = cx.lib("bin_read", &P, || {
        opt().deserialize_from::<_, PublicKey>(&mut rd).map_err(|e| {
            (match &*e { bincode::ErrorKind::Io(e) => Some(e.kind()), _ => None }, e.to_string())
        })
    });
    for f in &rd.faults {
        cx.fault(f);
    }
    let read_err = rd.faults.contains(&"read_error");
    let rk = rd.kind;
    if let Some(a) = a {
        cx.log(format!("bin reader -> {}", a.as_ref().map(ops::pk_desc).unwrap_or("err".into())));
        if read_err {
            cx.check(a.is_err(), &P, "read-error-lost", || format!("the stream failed with {:?} but a key came out", rk));
            if let Err((Some(k), _)) = &a {
                cx.check(*k == rk, &P, "read-error-changed", || format!("{:?} became {:?}", rk, k));
            }
        } else if !fails {
            let a = a.map_err(|e| e.1);
            judge(cx, "bincode from a stream", &a, delivered.as_deref(), true, &hex(&j));
        }
    }
}
fn own_write(cx: &mut Cx, r: &mut Rng, k: &PublicKey, q: &Pt, on: bool) {
    let human = r.p(1, 2);
    let fail = if on { r.below(4) as u32 } else { 0 };
    let want = if human { Out::Str(codec::b64enc(&curve::full(q))) } else { Out::Bytes(curve::full(q).to_vec()) };
    let mut out = vec![];
    let before = *k;
    let res = cx.lib_raw("own_write", &P, || Serialize::serialize(k, SimSer { human, out: &mut out, fail }));
    cx.log(format!("own format human={} fail={} -> {:?}", human, fail, out.len()));
    cx.seen(&[33, human as u64, fail as u64]);
    match (fail, res) {
        (0, Ok(Ok(()))) => cx.check(out == vec![want.clone()], &P, "hand-over", || format!("handed over {:?} instead of {:?}", out, want)),
        (1, Ok(Err(FErr::Injected(1)))) => cx.fault("serializer_error"),
        (2, Err(_)) | (3, Err(_)) => cx.fault("serializer_panic"),
        (f, x) => cx.check(false, &P, "serializer-failure", || format!("fault {} gave {:?}", f, x)),
    }
    cx.check(*k == before, &P, "key-changed", || "serialising changed the key".into());
    let mut out = vec![];
    let res = cx.lib("own_write", &P, || Serialize::serialize(k, SimSer { human, out: &mut out, fail: 0 }).is_ok());
    cx.check(res == Some(true) && out == vec![want.clone()], &P, "hand-over", || format!("handed over {:?} instead of {:?}", out, want));
}
fn own_read(cx: &mut Cx, r: &mut Rng, q: &Pt, on: bool) {
    let human = r.p(1, 2);
    let b = body(r, q, on, cx);
    let how = if r.p(3, 4) || !on {
        if human { *r.pick(&[How::Str, How::BorrowedStr, How::String]) } else { *r.pick(&[How::Bytes, How::BorrowedBytes, How::ByteBuf]) }
    } else {
        *r.pick(&[How::Str, How::Bytes, How::ByteBuf, How::String, How::Seq, How::U64, How::Unit, How::None, How::Some, How::Newtype, How::Map, How::Bool])
    };
    let texty = matches!(how, How::Str | How::BorrowedStr | How::String);
    let natural = if human { texty } else { matches!(how, How::Bytes | How::BorrowedBytes | How::ByteBuf) };
    let enc = codec::b64enc(&b);
    let data: Vec<u8> = if human { enc.clone().into_bytes() } else { b.clone() };
    let fail = if on && r.p(1, 3) { 1 + r.below(5) as u32 } else { 0 };
    let asked = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let res = cx.lib_raw("own_read", &P, || {
        PublicKey::deserialize(SimDe { human, how, data: &data, fail, asked: asked.clone() }).map_err(|e| e)
    });
    cx.log(format!("own read human={} {:?} fail={} -> {}", human, how, fail, match &res { Ok(Ok(k)) => ops::pk_desc(k), Ok(Err(_)) => "err".into(), Err(_) => "panic".into() }));
    cx.seen(&[34, human as u64, how as u64, fail as u64, b.len() as u64]);
    match fail {
        0 => match res {
            Ok(x) => {
                let x = x.map_err(|e| e.to_string());
                judge(cx, "own format", &x, Some(&b), natural, &format!("{:?} human={}", how, human));
            }
            Err(m) => cx.check(false, &P, "panic", || format!("deserialising panicked: {}", m)),
        },
        1 | 4 => {
            cx.fault("deserializer_error");
            let ok = matches!(res, Ok(Err(FErr::Injected(11))) | Ok(Err(FErr::Injected(14))) | Ok(Err(FErr::Injected(13))));
            cx.check(ok, &P, "deserializer-failure", || format!("fault {} gave {:?}", fail, res.map(|x| x.is_ok())))
        }
        _ => {
            cx.fault("deserializer_panic");
            cx.check(res.is_err(), &P, "deserializer-failure", || "a panic of the format was swallowed".into())
        }
    }
    // retry
    let asked = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let good = if human { codec::b64enc(&curve::full(q)).into_bytes() } else { curve::full(q).to_vec() };
    let how = if human { How::BorrowedStr } else { How::BorrowedBytes };
    let res = cx.lib("own_read", &P, || {
        PublicKey::deserialize(SimDe { human, how, data: &good, fail: 0, asked }).map_err(|e| e.to_string())
    });
    if let Some(x) = res {
        judge(cx, "own format retried", &x, Some(&curve::full(q)), true, "healthy");
    }
}
/// several keys in one document
fn many(cx: &mut Cx, r: &mut Rng, on: bool) {
    let n = 1 + r.below(5);
    let qs: Vec<Pt> = (0..n).map(|_| gen::point(r)).collect();
    let mut ks = vec![];
    for q in &qs {
        match ops::mk_pk(cx, r, q) {
            Some(k) => ks.push(k),
            None => return,
        }
    }
    let ks2 = ks.clone();
    let j = cx.lib("json_write", &P, || serde_json::to_vec(&ks2).unwrap_or_default()).unwrap_or_default();
    let want: String = format!("[{}]", qs.iter().map(|q| format!("\"{}\"", codec::b64enc(&curve::full(q)))).collect::<Vec<_>>().join(","));
    cx.check(j == want.as_bytes(), &P, "wrong-bytes-written", || String::from_utf8_lossy(&j).into());
    let mut rd = SimReader { data: &j, pos: 0, script: script(r, on), i: 0, fail_at: None, kind: io::ErrorKind::Other, faults: vec![] };
    let back = cx.lib("json_read", &P, || serde_json::from_reader::<_, Vec<PublicKey>>(&mut rd).ok());
    cx.check(back == Some(Some(ks.clone())), &P, "stream-key-mismatch", || format!("{} keys", n));
    // one key after the other on one binary stream; one of them damaged
    let mut b = vec![];
    for q in &qs {
        b.extend_from_slice(&65u64.to_le_bytes());
        b.extend_from_slice(&curve::full(q));
    }
    let bad = if on { Some(r.below(n)) } else { None };
    if let Some(i) = bad {
        b[i * 73 + 8 + 64] ^= 2;
        cx.fault("stream_bitflip");
    }
    let mut rd = SimReader { data: &b, pos: 0, script: script(r, on), i: 0, fail_at: None, kind: io::ErrorKind::Other, faults: vec![] };
    for (i, q) in qs.iter().enumerate() {
        let a = cx.lib("bin_read", &P, || bincode::deserialize_from::<_, PublicKey>(&mut rd).map_err(|e| e.to_string()));
        let f = &b[i * 73 + 8..i * 73 + 73];
        let _ = q;
        if let Some(a) = a {
            judge(cx, "bincode in sequence", &a, Some(f), true, "sequence");
        }
        if Some(i) == bad {
            // bincode leaves the stream after the damaged record
            cx.check(rd.pos == (i + 1) * 73, &["-"], "stream-position", || format!("{}", rd.pos));
        }
    }
    for f in &rd.faults {
        cx.fault(f);
    }
    cx.log(format!("{} keys in one document", n));
}
