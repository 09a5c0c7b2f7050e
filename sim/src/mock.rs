//! Simulated protocols: implementations of the crate's four protocol traits that serve or record
//! Thrift events instead of bytes. They check each call against the events they expect, report drawn
//! counts, stall (asynchronous halves) and fail at a drawn call.
use crate::alloc;
use crate::drive::{kind_of, mcode, ttype, El, Kind, EOF_KIND};
use crate::io::{lock, Cell, World};
use crate::val::Val;
use async_trait::async_trait;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{
    ApplicationError, Error, ProtocolError, ProtocolErrorKind, Result as TResult, TransportError,
};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// One protocol call with its content.
#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    MsgBegin(String, u8, u32),
    MsgEnd,
    StructBegin(String),
    StructEnd,
    /// Name (checked where given), type and id.
    FieldBegin(Option<String>, TType, Option<i16>),
    FieldEnd,
    FieldStop,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(u64),
    Bytes(Vec<u8>),
    Str(String),
    /// Content of an unknown field: read as binary or (if it is text) as a string.
    Any(Vec<u8>),
    ListBegin(TType, u32),
    ListEnd,
    SetBegin(TType, u32),
    SetEnd,
    MapBegin(Option<TType>, Option<TType>, u32),
    MapEnd,
    Byte(u8),
    Flush,
}

pub struct St {
    pub world: World,
    /// What a reader is served.
    pub feed: Vec<Ev>,
    /// What was called (writers).
    pub log: Vec<Ev>,
    pub calls: usize,
    pub fail_at: usize,
    pub error: (Kind, String),
    /// Calls made after the failure was reported.
    pub after: Option<String>,
    pub wrong: Option<String>,
    pub sum: usize,
    pub salt: u64,
    /// of 16, per call: not ready
    pub pend: u64,
}

#[derive(Clone)]
pub struct Mock(pub Arc<Mutex<St>>);

impl Mock {
    pub fn new(world: &World, feed: Vec<Ev>, salt: u64) -> Mock {
        let pend = world.with(|w| w.s.pick(&[0, 0, 1, 6]));
        Mock(Arc::new(Mutex::new(St {
            world: world.clone(),
            feed,
            log: vec![],
            calls: 0,
            fail_at: usize::MAX,
            error: (EOF_KIND, String::new()),
            after: None,
            wrong: None,
            sum: 0,
            salt,
            pend,
        })))
    }
    pub fn fail_at(self, call: usize, e: (Kind, String)) -> Mock {
        {
            let mut s = lock(&self.0);
            s.fail_at = call;
            s.error = e;
        }
        self
    }
    fn with<T>(&self, f: impl FnOnce(&mut St) -> T) -> T {
        let _m = alloc::mute();
        f(&mut lock(&self.0))
    }
    async fn stall(&self) {
        let (w, p) = self.with(|s| (s.world.clone(), s.pend));
        if p > 0 && w.chance(p, 16) {
            let cell = {
                let _m = alloc::mute();
                Arc::new(Mutex::new(Cell::default()))
            };
            w.with(|w| w.pend(&cell));
            Fired(cell).await
        }
    }
}

struct Fired(Arc<Mutex<Cell>>);
impl Future for Fired {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let _m = alloc::mute();
        let mut c = lock(&self.0);
        if c.fired {
            return Poll::Ready(());
        }
        c.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl St {
    /// Account a call; `Err` if it is the one that fails, or comes after it.
    fn call(&mut self, name: &impl std::fmt::Debug) -> TResult<()> {
        let k = self.calls;
        self.calls += 1;
        if k > self.fail_at {
            self.after.get_or_insert_with(|| crate::val::bounded(name, 100).unwrap_or_else(|s| s));
        }
        if k >= self.fail_at {
            if k == self.fail_at {
                self.world.fault("protocol_error");
            }
            return Err(make_error(&self.error));
        }
        Ok(())
    }
    fn tick(&mut self, id: u32, k: u64, ok: bool) {
        self.world.with(|w| {
            w.calls += 1;
            w.clock += 1;
            w.ev("pcall", id, k, ok as u64)
        });
    }
    fn wrote(&mut self, e: Ev) -> TResult<usize> {
        let r = self.call(&e);
        let k = self.calls as u64;
        self.tick(1, k, r.is_ok());
        self.log.push(e);
        r?;
        let n = ((k.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ self.salt) >> 40) as usize % 1000;
        let n = if self.salt % 3 == 0 { n % 2 } else { n };
        self.sum += n;
        Ok(n)
    }
    fn next<T>(&mut self, name: &'static str, f: impl FnOnce(&Ev) -> Option<T>) -> TResult<T> {
        let k = self.calls;
        let r = self.call(&name);
        self.tick(0, k as u64, r.is_ok());
        r?;
        if let Some(x) = self.feed.get(k).and_then(f) {
            return Ok(x);
        }
        if self.wrong.is_none() {
            self.wrong = Some(format!("call {} is {} where the value has {:?}", k, name, self.feed.get(k)));
        }
        // nothing sensible can follow
        self.fail_at = self.calls;
        self.error = (Kind::P(ProtocolErrorKind::NotImplemented), "out of step".into());
        Err(make_error(&self.error))
    }
}

pub fn make_error(e: &(Kind, String)) -> Error {
    let message = e.1.clone();
    match e.0 {
        Kind::T(kind) => Error::Transport(TransportError { kind, message }),
        Kind::P(kind) => Error::Protocol(ProtocolError { kind, message }),
        Kind::A(kind) => Error::Application(ApplicationError { kind, message }),
    }
}
pub fn error_parts(e: &Error) -> (Kind, String) {
    let m = match e {
        Error::Transport(x) => &x.message,
        Error::Protocol(x) => &x.message,
        Error::Application(x) => &x.message,
    };
    (kind_of(e), m.clone())
}

impl Mock {
    fn w(&mut self, e: Ev) -> TResult<usize> {
        self.with(|s| s.wrote(e))
    }
    fn r<T>(&mut self, name: &'static str, f: impl FnOnce(&Ev) -> Option<T>) -> TResult<T> {
        self.with(|s| s.next(name, f))
    }
    fn unit(&mut self, name: &'static str, want: Ev) -> TResult<()> {
        self.r(name, |e| (*e == want).then_some(()))
    }
    fn msg(&mut self) -> TResult<TMessageIdentifier> {
        self.r("read_message_begin", |e| match e {
            Ev::MsgBegin(n, t, s) => Some(TMessageIdentifier::new(n.clone(), crate::drive::mtype(*t), *s)),
            _ => None,
        })
    }
    fn struct_begin(&mut self) -> TResult<Option<TStructIdentifier>> {
        self.r("read_struct_begin", |e| match e {
            Ev::StructBegin(n) if n.is_empty() => Some(None),
            Ev::StructBegin(n) => Some(Some(TStructIdentifier::new(n.clone()))),
            _ => None,
        })
    }
    fn field_begin(&mut self) -> TResult<TFieldIdentifier> {
        self.r("read_field_begin", |e| match e {
            Ev::FieldBegin(n, t, i) => Some(TFieldIdentifier { name: n.clone(), field_type: *t, id: *i }),
            Ev::FieldStop => Some(TFieldIdentifier { name: None, field_type: TType::Stop, id: None }),
            _ => None,
        })
    }
    fn bytes(&mut self) -> TResult<Vec<u8>> {
        self.r("read_bytes", |e| match e {
            Ev::Bytes(b) | Ev::Any(b) => Some(b.clone()),
            _ => None,
        })
    }
    fn string(&mut self) -> TResult<String> {
        self.r("read_string", |e| match e {
            Ev::Str(s) => Some(s.clone()),
            Ev::Any(b) => String::from_utf8(b.clone()).ok(),
            _ => None,
        })
    }
    fn list(&mut self) -> TResult<TListIdentifier> {
        self.r("read_list_begin", |e| match e {
            Ev::ListBegin(t, n) => Some(TListIdentifier::new(*t, *n)),
            _ => None,
        })
    }
    fn set(&mut self) -> TResult<TSetIdentifier> {
        self.r("read_set_begin", |e| match e {
            Ev::SetBegin(t, n) => Some(TSetIdentifier::new(*t, *n)),
            _ => None,
        })
    }
    fn map(&mut self) -> TResult<TMapIdentifier> {
        self.r("read_map_begin", |e| match e {
            Ev::MapBegin(k, v, n) => Some(TMapIdentifier::new(*k, *v, *n)),
            _ => None,
        })
    }
}

macro_rules! scalar {
    ($s:ident, $n:literal, $v:ident) => {
        $s.r($n, |e| match e {
            Ev::$v(x) => Some(x.clone()),
            _ => None,
        })
    };
}

macro_rules! read_protocol {
    ([$($attr:tt)*] $tr:ident [$($a:tt)*] $s:ident $pre:block) => {
        $($attr)*
        impl $tr for Mock {
            $($a)* fn read_message_begin(&mut self) -> TResult<TMessageIdentifier> { let $s = self; $pre; $s.msg() }
            $($a)* fn read_message_end(&mut self) -> TResult<()> { let $s = self; $pre; $s.unit("read_message_end", Ev::MsgEnd) }
            $($a)* fn read_struct_begin(&mut self) -> TResult<Option<TStructIdentifier>> { let $s = self; $pre; $s.struct_begin() }
            $($a)* fn read_struct_end(&mut self) -> TResult<()> { let $s = self; $pre; $s.unit("read_struct_end", Ev::StructEnd) }
            $($a)* fn read_field_begin(&mut self) -> TResult<TFieldIdentifier> { let $s = self; $pre; $s.field_begin() }
            $($a)* fn read_field_end(&mut self) -> TResult<()> { let $s = self; $pre; $s.unit("read_field_end", Ev::FieldEnd) }
            $($a)* fn read_bool(&mut self) -> TResult<bool> { let $s = self; $pre; scalar!($s, "read_bool", Bool) }
            $($a)* fn read_bytes(&mut self) -> TResult<Vec<u8>> { let $s = self; $pre; $s.bytes() }
            $($a)* fn read_i8(&mut self) -> TResult<i8> { let $s = self; $pre; scalar!($s, "read_i8", I8) }
            $($a)* fn read_i16(&mut self) -> TResult<i16> { let $s = self; $pre; scalar!($s, "read_i16", I16) }
            $($a)* fn read_i32(&mut self) -> TResult<i32> { let $s = self; $pre; scalar!($s, "read_i32", I32) }
            $($a)* fn read_i64(&mut self) -> TResult<i64> { let $s = self; $pre; scalar!($s, "read_i64", I64) }
            $($a)* fn read_double(&mut self) -> TResult<f64> { let $s = self; $pre; scalar!($s, "read_double", Double).map(f64::from_bits) }
            $($a)* fn read_string(&mut self) -> TResult<String> { let $s = self; $pre; $s.string() }
            $($a)* fn read_list_begin(&mut self) -> TResult<TListIdentifier> { let $s = self; $pre; $s.list() }
            $($a)* fn read_list_end(&mut self) -> TResult<()> { let $s = self; $pre; $s.unit("read_list_end", Ev::ListEnd) }
            $($a)* fn read_set_begin(&mut self) -> TResult<TSetIdentifier> { let $s = self; $pre; $s.set() }
            $($a)* fn read_set_end(&mut self) -> TResult<()> { let $s = self; $pre; $s.unit("read_set_end", Ev::SetEnd) }
            $($a)* fn read_map_begin(&mut self) -> TResult<TMapIdentifier> { let $s = self; $pre; $s.map() }
            $($a)* fn read_map_end(&mut self) -> TResult<()> { let $s = self; $pre; $s.unit("read_map_end", Ev::MapEnd) }
            $($a)* fn read_byte(&mut self) -> TResult<u8> { let $s = self; $pre; scalar!($s, "read_byte", Byte) }
        }
    };
}
read_protocol!([] TInputProtocol [] s {});
read_protocol!([#[async_trait]] TInputStreamProtocol [async] s { s.stall().await });

fn field(i: &TFieldIdentifier) -> Ev {
    Ev::FieldBegin(i.name.clone(), i.field_type, i.id)
}
fn message(i: &TMessageIdentifier) -> Ev {
    Ev::MsgBegin(i.name.clone(), mcode(i.message_type), i.sequence_number)
}

macro_rules! write_protocol {
    ([$($attr:tt)*] $tr:ident [$($a:tt)*] $s:ident $pre:block) => {
        $($attr)*
        impl $tr for Mock {
            $($a)* fn write_message_begin(&mut self, i: &TMessageIdentifier) -> TResult<usize> { let $s = self; $pre; $s.w(message(i)) }
            $($a)* fn write_message_end(&mut self) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::MsgEnd) }
            $($a)* fn write_struct_begin(&mut self, i: &TStructIdentifier) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::StructBegin(i.name.clone())) }
            fn write_struct_end(&mut self) -> TResult<usize> { self.w(Ev::StructEnd) }
            $($a)* fn write_field_begin(&mut self, i: &TFieldIdentifier) -> TResult<usize> { let $s = self; $pre; $s.w(field(i)) }
            fn write_field_end(&mut self) -> TResult<usize> { self.w(Ev::FieldEnd) }
            $($a)* fn write_field_stop(&mut self) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::FieldStop) }
            $($a)* fn write_bool(&mut self, b: bool) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::Bool(b)) }
            $($a)* fn write_bytes(&mut self, b: &[u8]) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::Bytes(b.to_vec())) }
            $($a)* fn write_i8(&mut self, i: i8) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::I8(i)) }
            $($a)* fn write_i16(&mut self, i: i16) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::I16(i)) }
            $($a)* fn write_i32(&mut self, i: i32) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::I32(i)) }
            $($a)* fn write_i64(&mut self, i: i64) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::I64(i)) }
            $($a)* fn write_double(&mut self, d: f64) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::Double(d.to_bits())) }
            $($a)* fn write_string(&mut self, x: &str) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::Str(x.to_string())) }
            $($a)* fn write_list_begin(&mut self, i: &TListIdentifier) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::ListBegin(i.element_type, i.size)) }
            $($a)* fn write_list_end(&mut self) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::ListEnd) }
            $($a)* fn write_set_begin(&mut self, i: &TSetIdentifier) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::SetBegin(i.element_type, i.size)) }
            $($a)* fn write_set_end(&mut self) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::SetEnd) }
            $($a)* fn write_map_begin(&mut self, i: &TMapIdentifier) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::MapBegin(i.key_type, i.value_type, i.size)) }
            $($a)* fn write_map_end(&mut self) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::MapEnd) }
            $($a)* fn flush(&mut self) -> TResult<()> { let $s = self; $pre; $s.w(Ev::Flush).map(|_| ()) }
            $($a)* fn write_byte(&mut self, b: u8) -> TResult<usize> { let $s = self; $pre; $s.w(Ev::Byte(b)) }
        }
    };
}
write_protocol!([] TOutputProtocol [] s {});
write_protocol!([#[async_trait]] TOutputStreamProtocol [async] s { s.stall().await });

/// The events of an arbitrary tree read by skipping it.
pub fn any_events(v: &Val, out: &mut Vec<Ev>) {
    match v {
        Val::Bool(b) => out.push(Ev::Bool(*b)),
        Val::I8(x) => out.push(Ev::I8(*x)),
        Val::I16(x) => out.push(Ev::I16(*x)),
        Val::I32(x) => out.push(Ev::I32(*x)),
        Val::I64(x) => out.push(Ev::I64(*x)),
        Val::Double(x) => out.push(Ev::Double(*x)),
        Val::Bytes(x) => out.push(Ev::Any(x.clone())),
        Val::List(t, xs) | Val::Set(t, xs) => {
            let list = matches!(v, Val::List(..));
            let (t, n) = (ttype(*t), xs.len() as u32);
            out.push(if list { Ev::ListBegin(t, n) } else { Ev::SetBegin(t, n) });
            xs.iter().for_each(|x| any_events(x, out));
            out.push(if list { Ev::ListEnd } else { Ev::SetEnd });
        }
        Val::Map(k, t, xs) => {
            let full = !xs.is_empty();
            out.push(Ev::MapBegin(full.then(|| ttype(*k)), full.then(|| ttype(*t)), xs.len() as u32));
            for (a, b) in xs {
                any_events(a, out);
                any_events(b, out);
            }
            out.push(Ev::MapEnd);
        }
        Val::Struct(fs) => {
            out.push(Ev::StructBegin(String::new()));
            for (id, x) in fs {
                out.push(Ev::FieldBegin(None, ttype(x.ty()), Some(*id)));
                any_events(x, out);
                out.push(Ev::FieldEnd);
            }
            out.push(Ev::FieldStop);
            out.push(Ev::StructEnd);
        }
    }
}

/// The call an element operation makes.
pub fn elem_event(e: &El) -> Ev {
    match e.clone() {
        El::MsgBegin(n, t, s) => Ev::MsgBegin(n, t, s),
        El::MsgEnd => Ev::MsgEnd,
        El::StructBegin => Ev::StructBegin("S".into()),
        El::StructEnd => Ev::StructEnd,
        El::FieldBegin(i, t) => Ev::FieldBegin(Some("f".into()), ttype(t), Some(i)),
        El::FieldEnd => Ev::FieldEnd,
        El::FieldStop => Ev::FieldStop,
        El::Bool(x) => Ev::Bool(x),
        El::I8(x) => Ev::I8(x),
        El::I16(x) => Ev::I16(x),
        El::I32(x) => Ev::I32(x),
        El::I64(x) => Ev::I64(x),
        El::Double(x) => Ev::Double(x),
        El::Bytes(x) => Ev::Bytes(x),
        El::Str(x) => Ev::Str(x),
        El::ListBegin(t, n) => Ev::ListBegin(ttype(t), n),
        El::ListEnd => Ev::ListEnd,
        El::SetBegin(t, n) => Ev::SetBegin(ttype(t), n),
        El::SetEnd => Ev::SetEnd,
        El::MapBegin(k, v, n) => Ev::MapBegin(Some(ttype(k)), Some(ttype(v)), n),
        El::MapEnd => Ev::MapEnd,
        El::Byte(b) => Ev::Byte(b),
    }
}
