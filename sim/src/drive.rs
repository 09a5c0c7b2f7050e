//! Sessions: one protocol object (blocking, boxed or asynchronous) over one simulated transport, with
//! whole-value and element-level operations.
use crate::exec::{block_on, guarded, R};
use crate::io::{SimReader, SimWriter, World};
use crate::schema::*;
use crate::tape::Tape;
use crate::val::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{
    ApplicationErrorKind, Error, ProtocolErrorKind, Result as TResult, TransportErrorKind,
};
use std::io::ErrorKind;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    T(TransportErrorKind),
    P(ProtocolErrorKind),
    A(ApplicationErrorKind),
}
pub const EOF_KIND: Kind = Kind::T(TransportErrorKind::EndOfFile);
pub const LIMIT_KIND: Kind = Kind::P(ProtocolErrorKind::SizeLimit);
pub const DEPTH_KIND: Kind = Kind::P(ProtocolErrorKind::DepthLimit);

pub fn kind_of(e: &Error) -> Kind {
    match e {
        Error::Transport(t) => Kind::T(t.kind),
        Error::Protocol(p) => Kind::P(p.kind),
        Error::Application(a) => Kind::A(a.kind),
    }
}
/// The documented category of an I/O error.
pub fn category(k: ErrorKind) -> Kind {
    use TransportErrorKind as T;
    Kind::T(match k {
        ErrorKind::ConnectionReset | ErrorKind::ConnectionRefused | ErrorKind::NotConnected => T::NotOpen,
        ErrorKind::AlreadyExists => T::AlreadyOpen,
        ErrorKind::TimedOut => T::TimedOut,
        ErrorKind::UnexpectedEof => T::EndOfFile,
        _ => T::Unknown,
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Sync,
    Boxed,
    Async,
}
pub const HOWS: [How; 3] = [How::Sync, How::Boxed, How::Async];

pub type Out<T> = Result<T, Kind>;

pub fn conv<T>(r: TResult<T>) -> Out<T> {
    r.map_err(|e| {
        let _t = crate::alloc::track();
        let k = kind_of(&e);
        {
            // what a program would log
            let _m = crate::alloc::mute();
            let _ = format!("{} {:?}", e, e);
        }
        drop(e);
        k
    })
}

pub enum In {
    Sync(InSync),
    Boxed(InBoxed),
    Async(InAsync),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ListOf {
    Bool,
    Byte,
    I64,
    Str,
    Bin,
}
macro_rules! list_body {
    ($p:ident, $e:ident, $($aw:tt)*) => {
        Ok(match $e {
            ListOf::Bool => $p.read_list::<bool>()$($aw)*?.into_iter().map(Val::Bool).collect(),
            ListOf::Byte => $p.read_list::<u8>()$($aw)*?.into_iter().map(|x| Val::I8(x as i8)).collect(),
            ListOf::I64 => $p.read_list::<i64>()$($aw)*?.into_iter().map(Val::I64).collect(),
            ListOf::Str => $p.read_list::<String>()$($aw)*?.into_iter().map(|x| Val::Bytes(x.into_bytes())).collect(),
            ListOf::Bin => $p.read_list::<Vec<u8>>()$($aw)*?.into_iter().map(Val::Bytes).collect(),
        })
    };
}

pub fn read_list<P: TInputProtocol>(p: &mut P, e: ListOf) -> TResult<Vec<Val>> {
    list_body!(p, e,)
}
pub async fn read_list_async<P: TInputStreamProtocol>(p: &mut P, e: ListOf) -> TResult<Vec<Val>> {
    list_body!(p, e, .await)
}

pub struct ReadSession {
    pub p: In,
    pub world: World,
    pub spurious: u64,
}

impl ReadSession {
    pub fn new(how: How, r: &SimReader, limit: usize) -> ReadSession {
        let world = r.world.clone();
        let spurious = if how == How::Async {
            world.with(|w| w.s.pick(&[0, 0, 2, 8]))
        } else {
            0
        };
        let r = r.clone();
        let _t = crate::alloc::track();
        let p = match how {
            How::Sync => In::Sync(TCompactInputProtocol::new(r, limit)),
            How::Boxed => In::Boxed(Box::new(TCompactInputProtocol::new(r, limit))),
            How::Async => In::Async(TCompactInputStreamProtocol::new(r, limit)),
        };
        ReadSession { p, world, spurious }
    }
    pub fn value(&mut self, ops: &'static Ops) -> R<Out<DynVal>> {
        let r = match &mut self.p {
            In::Sync(p) => guarded(|| (ops.read_sync)(p)),
            In::Boxed(p) => guarded(|| (ops.read_boxed)(p)),
            In::Async(p) => block_on(&self.world, self.spurious, || (ops.read_async)(p)),
        };
        self.world.note(|| match &r {
            Ok(Ok(v)) => format!("read {} -> value {}", ops.name, v.tree().brief()),
            Ok(Err(e)) => format!("read {} -> error {:?}", ops.name, kind_of(e)),
            Err(v) => format!("read {} -> {}: {}", ops.name, v.class, v.msg),
        });
        r.map(conv)
    }
    pub fn elem(&mut self, op: &El) -> R<Out<Got>> {
        let r = match &mut self.p {
            In::Sync(p) => guarded(|| read_elem(p, op)),
            In::Boxed(p) => guarded(|| read_elem(p, op)),
            In::Async(p) => block_on(&self.world, self.spurious, || read_elem_async(p, op)),
        };
        self.world.note(|| match &r {
            Ok(Ok(v)) => format!("elem {:?} -> {:?}", op, v),
            Ok(Err(e)) => format!("elem {:?} -> error {:?}", op, kind_of(e)),
            Err(v) => format!("elem {:?} -> {}: {}", op, v.class, v.msg),
        });
        r.map(conv)
    }
    /// Skip, to the default depth or a given one.
    pub fn skip(&mut self, t: TType, depth: Option<i8>) -> R<Out<()>> {
        let r = match (&mut self.p, depth) {
            (In::Sync(p), None) => guarded(|| p.skip(t)),
            (In::Boxed(p), None) => guarded(|| p.skip(t)),
            (In::Async(p), None) => block_on(&self.world, self.spurious, || p.skip(t)),
            (In::Sync(p), Some(d)) => guarded(|| p.skip_till_depth(t, d)),
            (In::Boxed(p), Some(d)) => guarded(|| p.skip_till_depth(t, d)),
            (In::Async(p), Some(d)) => block_on(&self.world, self.spurious, || p.skip_till_depth(t, d)),
        };
        self.world.note(|| format!("skip {:?} to {:?} -> {:?}", t, depth, r.as_ref().map(|r| r.as_ref().map_err(kind_of))));
        r.map(conv)
    }
    /// A whole list of scalars, as a vector.
    pub fn list(&mut self, e: ListOf) -> R<Out<Vec<Val>>> {
        let r = match &mut self.p {
            In::Sync(p) => guarded(|| read_list(p, e)),
            In::Boxed(p) => guarded(|| read_list(p, e)),
            In::Async(p) => block_on(&self.world, self.spurious, || read_list_async(p, e)),
        };
        self.world.note(|| format!("list of {:?} -> {:?}", e, r.as_ref().map(|r| r.as_ref().map_err(kind_of))));
        r.map(conv)
    }
    pub fn close(self) {
        let p = self.p;
        let _t = crate::alloc::track();
        drop(p);
    }
}

pub enum OutP {
    Sync(OutSync),
    Boxed(OutBoxed),
    Async(OutAsync),
}
pub struct WriteSession {
    pub p: OutP,
    pub world: World,
    pub spurious: u64,
}
impl WriteSession {
    pub fn new(how: How, w: &SimWriter) -> WriteSession {
        let world = w.world.clone();
        let spurious = if how == How::Async {
            world.with(|w| w.s.pick(&[0, 0, 2, 8]))
        } else {
            0
        };
        let w = w.clone();
        let _t = crate::alloc::track();
        let p = match how {
            How::Sync => OutP::Sync(TCompactOutputProtocol::new(w)),
            How::Boxed => OutP::Boxed(Box::new(TCompactOutputProtocol::new(w))),
            How::Async => OutP::Async(TCompactOutputStreamProtocol::new(w)),
        };
        WriteSession { p, world, spurious }
    }
    pub fn value(&mut self, v: &dyn AnyVal) -> R<Out<usize>> {
        let r = match &mut self.p {
            OutP::Sync(p) => guarded(|| v.write_sync(p)),
            OutP::Boxed(p) => guarded(|| v.write_boxed(p)),
            OutP::Async(p) => block_on(&self.world, self.spurious, || v.write_async(p)),
        };
        self.world.note(|| format!("write value -> {:?}", r.as_ref().map(|r| r.as_ref().map_err(kind_of))));
        r.map(conv)
    }
    pub fn elem(&mut self, op: &El) -> R<Out<usize>> {
        let r = match &mut self.p {
            OutP::Sync(p) => guarded(|| write_elem(p, op)),
            OutP::Boxed(p) => guarded(|| write_elem(p, op)),
            OutP::Async(p) => block_on(&self.world, self.spurious, || write_elem_async(p, op)),
        };
        self.world.note(|| format!("write {:?} -> {:?}", op, r.as_ref().map(|r| r.as_ref().map_err(kind_of))));
        r.map(conv)
    }
    /// Content given as a slice, of any length.
    pub fn slice(&mut self, b: &'static [u8], string: bool) -> R<Out<usize>> {
        let s = if string { std::str::from_utf8(&b[..b.len().min(1 << 16)]).ok().map(|_| unsafe { std::str::from_utf8_unchecked(b) }) } else { None };
        let r = match (&mut self.p, s) {
            (OutP::Sync(p), Some(s)) => guarded(|| p.write_string(s)),
            (OutP::Boxed(p), Some(s)) => guarded(|| p.write_string(s)),
            (OutP::Async(p), Some(s)) => block_on(&self.world, self.spurious, || p.write_string(s)),
            (OutP::Sync(p), None) => guarded(|| p.write_bytes(b)),
            (OutP::Boxed(p), None) => guarded(|| p.write_bytes(b)),
            (OutP::Async(p), None) => block_on(&self.world, self.spurious, || p.write_bytes(b)),
        };
        self.world.note(|| format!("write {} bytes -> {:?}", b.len(), r.as_ref().map(|r| r.as_ref().map_err(kind_of))));
        r.map(conv)
    }
    pub fn flush(&mut self) -> R<Out<()>> {
        let r = match &mut self.p {
            OutP::Sync(p) => guarded(|| p.flush()),
            OutP::Boxed(p) => guarded(|| p.flush()),
            OutP::Async(p) => block_on(&self.world, self.spurious, || p.flush()),
        };
        self.world.note(|| format!("flush -> {:?}", r.as_ref().map(|r| r.as_ref().map_err(kind_of))));
        r.map(conv)
    }
}

// ---- element-level operations ----

#[derive(Clone, PartialEq, Debug)]
pub enum El {
    MsgBegin(String, u8, u32),
    MsgEnd,
    StructBegin,
    StructEnd,
    FieldBegin(i16, u8),
    FieldEnd,
    FieldStop,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(u64),
    Bytes(Vec<u8>),
    Str(String),
    ListBegin(u8, u32),
    ListEnd,
    SetBegin(u8, u32),
    SetEnd,
    MapBegin(u8, u8, u32),
    MapEnd,
    /// one raw byte
    Byte(u8),
}

/// What a read operation returned.
#[derive(Clone, PartialEq, Debug)]
pub enum Got {
    Msg(String, u8, u32),
    Unit,
    Field(Option<i16>, TType),
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(u64),
    Bytes(Vec<u8>),
    Str(String),
    Coll(TType, u32),
    Map(Option<TType>, Option<TType>, u32),
    Byte(u8),
}

pub fn ttype(code: u8) -> TType {
    match code {
        T_BOOL => TType::Bool,
        T_I8 => TType::I08,
        T_I16 => TType::I16,
        T_I32 => TType::I32,
        T_I64 => TType::I64,
        T_DOUBLE => TType::Double,
        T_BYTES => TType::String,
        T_LIST => TType::List,
        T_SET => TType::Set,
        T_MAP => TType::Map,
        T_STRUCT => TType::Struct,
        _ => TType::Stop,
    }
}
pub fn mtype(t: u8) -> TMessageType {
    match t {
        1 => TMessageType::Call,
        2 => TMessageType::Reply,
        3 => TMessageType::Exception,
        _ => TMessageType::OneWay,
    }
}
pub fn mcode(t: TMessageType) -> u8 {
    match t {
        TMessageType::Call => 1,
        TMessageType::Reply => 2,
        TMessageType::Exception => 3,
        TMessageType::OneWay => 4,
    }
}

impl El {
    /// What reading this element is charged.
    pub fn charge(&self) -> u64 {
        match self {
            El::MsgBegin(n, ..) => n.len() as u64,
            El::StructBegin => 2,
            El::Bytes(b) => b.len() as u64,
            El::Str(b) => b.len() as u64,
            El::ListBegin(_, n) | El::SetBegin(_, n) | El::MapBegin(_, _, n) => 8 * *n as u64,
            _ => 0,
        }
    }
    /// What reading this element back must return.
    pub fn expect(&self) -> Got {
        match self.clone() {
            El::MsgBegin(n, t, s) => Got::Msg(n, t, s),
            El::FieldBegin(id, t) => Got::Field(Some(id), ttype(t)),
            El::FieldStop => Got::Field(None, TType::Stop),
            El::Bool(b) => Got::Bool(b),
            El::I8(x) => Got::I8(x),
            El::I16(x) => Got::I16(x),
            El::I32(x) => Got::I32(x),
            El::I64(x) => Got::I64(x),
            El::Double(x) => Got::Double(x),
            El::Bytes(x) => Got::Bytes(x),
            El::Str(x) => Got::Str(x),
            El::ListBegin(t, n) | El::SetBegin(t, n) => Got::Coll(ttype(t), n),
            El::MapBegin(_, _, 0) => Got::Map(None, None, 0),
            El::MapBegin(k, v, n) => Got::Map(Some(ttype(k)), Some(ttype(v)), n),
            El::Byte(b) => Got::Byte(b),
            _ => Got::Unit,
        }
    }
}

macro_rules! write_elem_body {
    ($p:ident, $op:ident, $($aw:tt)*) => {
        match $op {
            El::MsgBegin(n, t, s) => $p.write_message_begin(&TMessageIdentifier::new(n.clone(), mtype(*t), *s))$($aw)*,
            El::MsgEnd => $p.write_message_end()$($aw)*,
            El::StructBegin => $p.write_struct_begin(&TStructIdentifier::new("S"))$($aw)*,
            El::FieldBegin(id, t) => $p.write_field_begin(&TFieldIdentifier::new("f", ttype(*t), *id))$($aw)*,
            El::FieldStop => $p.write_field_stop()$($aw)*,
            El::StructEnd => $p.write_struct_end(),
            El::FieldEnd => $p.write_field_end(),
            El::Bool(b) => $p.write_bool(*b)$($aw)*,
            El::I8(x) => $p.write_i8(*x)$($aw)*,
            El::I16(x) => $p.write_i16(*x)$($aw)*,
            El::I32(x) => $p.write_i32(*x)$($aw)*,
            El::I64(x) => $p.write_i64(*x)$($aw)*,
            El::Double(x) => $p.write_double(f64::from_bits(*x))$($aw)*,
            El::Bytes(x) => $p.write_bytes(x)$($aw)*,
            El::Str(x) => $p.write_string(x)$($aw)*,
            El::ListBegin(t, n) => $p.write_list_begin(&TListIdentifier::new(ttype(*t), *n))$($aw)*,
            El::ListEnd => $p.write_list_end()$($aw)*,
            El::SetBegin(t, n) => $p.write_set_begin(&TSetIdentifier::new(ttype(*t), *n))$($aw)*,
            El::SetEnd => $p.write_set_end()$($aw)*,
            El::MapBegin(k, v, n) => $p.write_map_begin(&TMapIdentifier::new(ttype(*k), ttype(*v), *n))$($aw)*,
            El::MapEnd => $p.write_map_end()$($aw)*,
            El::Byte(b) => $p.write_byte(*b)$($aw)*,
        }
    };
}
pub fn write_elem<P: TOutputProtocol>(p: &mut P, op: &El) -> TResult<usize> {
    write_elem_body!(p, op,)
}
pub async fn write_elem_async<P: TOutputStreamProtocol>(p: &mut P, op: &El) -> TResult<usize> {
    write_elem_body!(p, op, .await)
}

macro_rules! read_elem_body {
    ($p:ident, $op:ident, $($aw:tt)*) => {
        Ok(match $op {
            El::MsgBegin(..) => {
                let m = $p.read_message_begin()$($aw)*?;
                Got::Msg(m.name, mcode(m.message_type), m.sequence_number)
            }
            El::MsgEnd => { $p.read_message_end()$($aw)*?; Got::Unit }
            El::StructBegin => { $p.read_struct_begin()$($aw)*?; Got::Unit }
            El::StructEnd => { $p.read_struct_end()$($aw)*?; Got::Unit }
            El::FieldBegin(..) | El::FieldStop => {
                let f = $p.read_field_begin()$($aw)*?;
                Got::Field(f.id, f.field_type)
            }
            El::FieldEnd => { $p.read_field_end()$($aw)*?; Got::Unit }
            El::Bool(_) => Got::Bool($p.read_bool()$($aw)*?),
            El::I8(_) => Got::I8($p.read_i8()$($aw)*?),
            El::I16(_) => Got::I16($p.read_i16()$($aw)*?),
            El::I32(_) => Got::I32($p.read_i32()$($aw)*?),
            El::I64(_) => Got::I64($p.read_i64()$($aw)*?),
            El::Double(_) => Got::Double($p.read_double()$($aw)*?.to_bits()),
            El::Bytes(_) => Got::Bytes($p.read_bytes()$($aw)*?),
            El::Str(_) => Got::Str($p.read_string()$($aw)*?),
            El::ListBegin(..) => { let l = $p.read_list_begin()$($aw)*?; Got::Coll(l.element_type, l.size) }
            El::ListEnd => { $p.read_list_end()$($aw)*?; Got::Unit }
            El::SetBegin(..) => { let l = $p.read_set_begin()$($aw)*?; Got::Coll(l.element_type, l.size) }
            El::SetEnd => { $p.read_set_end()$($aw)*?; Got::Unit }
            El::MapBegin(..) => { let m = $p.read_map_begin()$($aw)*?; Got::Map(m.key_type, m.value_type, m.size) }
            El::MapEnd => { $p.read_map_end()$($aw)*?; Got::Unit }
            El::Byte(_) => Got::Byte($p.read_byte()$($aw)*?),
        })
    };
}
pub fn read_elem<P: TInputProtocol>(p: &mut P, op: &El) -> TResult<Got> {
    read_elem_body!(p, op,)
}
pub async fn read_elem_async<P: TInputStreamProtocol>(p: &mut P, op: &El) -> TResult<Got> {
    read_elem_body!(p, op, .await)
}

/// Flatten a value into protocol operations. UTF-8 contents alternate between strings and binaries.
pub fn flatten(v: &Val, out: &mut Vec<El>) {
    match v {
        Val::Bool(b) => out.push(El::Bool(*b)),
        Val::I8(x) => out.push(El::I8(*x)),
        Val::I16(x) => out.push(El::I16(*x)),
        Val::I32(x) => out.push(El::I32(*x)),
        Val::I64(x) => out.push(El::I64(*x)),
        Val::Double(x) => out.push(El::Double(*x)),
        Val::Bytes(x) => match std::str::from_utf8(x) {
            Ok(s) if x.len() % 2 == 0 => out.push(El::Str(s.to_string())),
            _ => out.push(El::Bytes(x.clone())),
        },
        Val::List(t, xs) => {
            out.push(El::ListBegin(*t, xs.len() as u32));
            xs.iter().for_each(|x| flatten(x, out));
            out.push(El::ListEnd);
        }
        Val::Set(t, xs) => {
            out.push(El::SetBegin(*t, xs.len() as u32));
            xs.iter().for_each(|x| flatten(x, out));
            out.push(El::SetEnd);
        }
        Val::Map(k, t, xs) => {
            out.push(El::MapBegin(*k, *t, xs.len() as u32));
            for (a, b) in xs {
                flatten(a, out);
                flatten(b, out);
            }
            out.push(El::MapEnd);
        }
        Val::Struct(fs) => {
            out.push(El::StructBegin);
            for (id, x) in fs {
                out.push(El::FieldBegin(*id, x.ty()));
                flatten(x, out);
                out.push(El::FieldEnd);
            }
            out.push(El::FieldStop);
            out.push(El::StructEnd);
        }
    }
}

/// Arbitrary well-typed trees (used as unknown fields and as protocol-level programs).
pub struct AnyGen {
    pub depth: u32,
    pub budget: i64,
    pub utf8: bool,
}
impl AnyGen {
    pub fn val(&mut self, t: &mut Tape, ty: u8, depth: u32) -> Val {
        self.budget -= 1;
        let lean = self.budget <= 0 || depth >= self.depth;
        match ty {
            T_BOOL => Val::Bool(t.chance(1, 2)),
            T_I8 => Val::I8(Gen::new(t, 9, false).int(8) as i8),
            T_I16 => Val::I16(Gen::new(t, 9, false).int(16) as i16),
            T_I32 => Val::I32(Gen::new(t, 9, false).int(32) as i32),
            T_I64 => Val::I64(Gen::new(t, 9, false).int(64)),
            T_DOUBLE => Val::Double(match t.draw(6) {
                0 => 0,
                1 => 1.5f64.to_bits(),
                2 => f64::INFINITY.to_bits(),
                3 => (-0.0f64).to_bits(),
                4 => 0x7ff8_dead_beef_0001, // a NaN with a payload
                _ => t.raw(),
            }),
            T_BYTES => {
                let mut g = Gen::new(t, if lean { 4 } else { 300 }, false);
                let b = if self.utf8 || g.t.chance(1, 2) {
                    g.string().into_bytes()
                } else {
                    g.bytes()
                };
                self.budget -= b.len() as i64 / 16;
                Val::Bytes(b)
            }
            T_LIST | T_SET => {
                let e = self.ty(t, lean);
                let n = self.count(t, lean);
                let xs = (0..n).map(|_| self.val(t, e, depth + 1)).collect();
                if ty == T_LIST {
                    Val::List(e, xs)
                } else {
                    Val::Set(e, xs)
                }
            }
            T_MAP => {
                let (k, v) = (self.ty(t, lean), self.ty(t, lean));
                let n = self.count(t, lean);
                if n == 0 {
                    return Val::Map(0, 0, vec![]);
                }
                let xs = (0..n)
                    .map(|_| {
                        let a = self.val(t, k, depth + 1);
                        (a, self.val(t, v, depth + 1))
                    })
                    .collect();
                Val::Map(k, v, xs)
            }
            _ => {
                let n = if lean { 0 } else { t.draw(6) };
                let mut id = 0i32;
                let mut fs = vec![];
                for _ in 0..n {
                    id = self.next_id(t, id);
                    let e = self.ty(t, lean);
                    fs.push((id as i16, self.val(t, e, depth + 1)));
                }
                Val::Struct(fs)
            }
        }
    }
    pub fn next_id(&mut self, t: &mut Tape, last: i32) -> i32 {
        match t.weighted(&[6, 3, 3, 2, 1, 1]) {
            0 => (last + 1).min(32767),
            1 => (last + t.range(2, 16) as i32).min(32767),
            2 => t.draw(65536) as i32 - 32768,
            3 => t.pick(&[0, -1, 1, 14, 15, 16, 127, 128, 32767, -32768, 8191, 8192]),
            4 => last, // the same id again
            _ => (last - t.range(1, 300) as i32).max(-32768),
        }
    }
    pub fn ty(&mut self, t: &mut Tape, lean: bool) -> u8 {
        ALL_TYPES[t.draw(if lean { 7 } else { 11 }) as usize]
    }
    fn count(&mut self, t: &mut Tape, lean: bool) -> usize {
        if lean {
            return t.draw(2) as usize;
        }
        let n = match t.weighted(&[2, 6, 2, 1]) {
            0 => 0,
            1 => t.range(1, 4),
            2 => t.range(13, 17),
            _ => t.range(126, 130),
        } as usize;
        if n as i64 > self.budget {
            n % 3
        } else {
            n
        }
    }
}

/// Independent encoding of a message header.
pub fn message_header(name: &str, ty: u8, seq: u32) -> Vec<u8> {
    let mut v = vec![0x82, (ty << 5) | 1];
    put_varint(&mut v, seq as u64);
    put_varint(&mut v, name.len() as u64);
    v.extend_from_slice(name.as_bytes());
    v
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(120).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 120 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

pub fn show<T>(r: &Out<T>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(k) => format!("error {:?}", k),
    }
}

/// Undisturbed write of a value (all transports in their plainest behaviour), for reference bytes.
pub fn plain_bytes(v: &dyn AnyVal) -> Vec<u8> {
    encode(&v.tree())
}
