use super::writes::{big_header, pick_how};
use super::reads::{elem_bytes, forms};
use super::Ctx;
use crate::drive::*;
use crate::ensure;
use crate::exec::{block_on, fail, guarded, R};
use crate::io::*;
use crate::schema::*;
use crate::tape::Tape;
use crate::val::*;
use parquet_format_safe::thrift::varint::{VarInt, VarIntAsyncReader, VarIntAsyncWriter, VarIntReader, VarIntWriter};
use parquet_format_safe::thrift::{ApplicationError, ApplicationErrorKind, Error};
use std::io::ErrorKind;

enum Part {
    Msg(String, u8, u32, Val),
    Val(Val),
}

fn parts(t: &mut Tape) -> Vec<Part> {
    (0..t.range(1, 4))
        .map(|_| {
            let mut g = AnyGen { depth: t.range(1, 6) as u32, budget: t.pick(&[6, 30, 150, 400]), utf8: false };
            if t.chance(1, 3) {
                let v = g.val(t, T_STRUCT, 0);
                let name = Gen::new(t, 200, false).string();
                let ty = t.range(1, 4) as u8;
                let seq = match t.draw(5) {
                    0 => 0,
                    1 => t.draw(300) as u32,
                    2 => u32::MAX - t.draw(2) as u32,
                    3 => 1 << t.draw(32),
                    _ => t.raw() as u32,
                };
                Part::Msg(name, ty, seq, v)
            } else {
                let ty = if t.chance(2, 3) { T_STRUCT } else { g.ty(t, false) };
                Part::Val(g.val(t, ty, 0))
            }
        })
        .collect()
}

/// A list of scalars read as one vector.
fn c19_list(c: &mut Ctx) -> R<()> {
    let e = c.w.pick(&[ListOf::Bool, ListOf::Byte, ListOf::I64, ListOf::Str, ListOf::Bin]);
    let n = match c.w.draw(4) {
        0 => 0,
        1 => c.w.range(1, 5),
        2 => c.w.range(13, 17),
        _ => c.w.pick(&[40, 127, 128, 300, 3000]),
    };
    let mut g = AnyGen { depth: 1, budget: 1 << 40, utf8: e == ListOf::Str };
    let code = match e {
        ListOf::Bool => T_BOOL,
        ListOf::Byte => T_I8,
        ListOf::I64 => T_I64,
        _ => T_BYTES,
    };
    let vs: Vec<Val> = (0..n).map(|_| g.val(&mut c.w, code, 0)).collect();
    let f = forms(&mut c.w);
    let mut enc = Enc::new(f, &mut c.w);
    enc.val(&Val::List(code, vs.clone()));
    let mut b = enc.out;
    let end = b.len();
    b.extend([0xf7; 3]);
    let cut = c.world.draw(end as u64) as usize;
    for how in HOWS {
        let src = SimReader::new(&c.world, 2, b.clone(), Cfg::draw(&c.world).no_eintr());
        let r = ReadSession::new(how, &src, usize::MAX).list(e)?;
        ensure!(r.as_ref() == Ok(&vs), "wrong-list", "{:?} read of a list of {} {:?} gave {}; stream {}", how, n, e, bounded(&r, 300).unwrap_or_else(|s| s), hex(&b));
        ensure!(src.pos() == end, "consumption", "{:?} read of a list of {} {:?} consumed {} of {} bytes", how, n, e, src.pos(), end);
        // torn
        c.world.fault("torn_stream");
        let src = SimReader::new(&c.world, 3, b[..cut].to_vec(), Cfg::draw(&c.world).no_eintr());
        let r = ReadSession::new(how, &src, usize::MAX).list(e)?;
        ensure!(r == Err(EOF_KIND), "torn", "{:?} read of {} of {} bytes of a list of {:?} gave {}", how, cut, end, e, bounded(&r, 300).unwrap_or_else(|s| s));
    }
    Ok(())
}

/// The headers of collections of any size, entries left out.
fn c19_headers(c: &mut Ctx) -> R<()> {
    let prog: Vec<El> = (0..c.w.range(1, 4)).map(|_| big_header(&mut c.w)).collect();
    let bytes = elem_bytes(&prog);
    let n = c.w.range(0, 2);
    for _ in 0..=n {
        let how = pick_how(&mut c.w);
        let mut cfg = Cfg::draw(&c.world);
        if how == How::Async {
            cfg = cfg.no_eintr();
        }
        let sink = SimWriter::new(&c.world, 1, cfg);
        let mut s = WriteSession::new(how, &sink);
        for op in &prog {
            if let Err(k) = s.elem(op)? {
                return fail("write-error", format!("{:?} write of {:?}: {:?}", how, op, k));
            }
        }
        ensure!(sink.got() == bytes, "wire", "{:?} write of {:?}: {} instead of {}", how, prog, hex(&sink.got()), hex(&bytes));
        let src = SimReader::new(&c.world, 2, bytes.clone(), cfg);
        let mut s = ReadSession::new(how, &src, usize::MAX);
        for op in &prog {
            match s.elem(op)? {
                Ok(g) => ensure!(g == op.expect(), "wrong-element", "{:?} read of {:?} gave {:?}; stream {}", how, op, g, hex(&bytes)),
                Err(k) => return fail("refused", format!("{:?} read of {:?}: {:?}; stream {}", how, op, k, hex(&bytes))),
            }
        }
        ensure!(src.pos() == bytes.len(), "consumption", "{:?} read of {:?} consumed {} of {} bytes", how, prog, src.pos(), bytes.len());
    }
    Ok(())
}

pub fn c19(c: &mut Ctx) -> R<()> {
    if c.w.chance(1, 10) {
        return c19_list(c);
    }
    if c.w.chance(1, 10) {
        return c19_headers(c);
    }
    let ps = parts(&mut c.w);
    let mut prog = vec![];
    for p in &ps {
        match p {
            Part::Msg(n, t, s, v) => {
                prog.push(El::MsgBegin(n.clone(), *t, *s));
                flatten(v, &mut prog);
                prog.push(El::MsgEnd);
            }
            Part::Val(v) => flatten(v, &mut prog),
        }
    }
    if c.w.chance(1, 8) {
        // the raw byte operation
        for _ in 0..c.w.range(1, 3) {
            prog.push(El::Byte(c.w.draw(256) as u8));
        }
    }
    let raw = prog.iter().filter(|p| matches!(p, El::Byte(_))).count();
    let mut streams = vec![elem_bytes(&prog)];
    for how in HOWS {
        let mut cfg = Cfg::draw(&c.world);
        if how == How::Async {
            cfg = cfg.no_eintr();
        }
        let sink = SimWriter::new(&c.world, 1, cfg);
        let mut s = WriteSession::new(how, &sink);
        for (i, op) in prog.iter().enumerate() {
            if let Err(k) = s.elem(op)? {
                return fail("write-error", format!("{:?} write of element {} {:?}: {:?}", how, i, op, k));
            }
        }
        let b = sink.got();
        // the independent decoder
        let mut d = Dec::new(&b);
        for p in &ps {
            let v = match p {
                Part::Msg(n, t, s, v) => {
                    let h = message_header(n, *t, *s);
                    ensure!(b[d.i..].starts_with(&h), "message-header", "{:?} write of message {:?} type {} sequence {}: {}", how, n, t, s, hex(&b[d.i..]));
                    d.i += h.len();
                    v
                }
                Part::Val(v) => v,
            };
            match d.val(v.ty(), 0) {
                Ok(x) => ensure!(x == *v, "wire", "{:?} write of {} decodes to {}; bytes {}", how, v.brief(), x.brief(), hex(&b)),
                Err(e) => return fail("wire", format!("{:?} write of {} does not decode: {}; bytes {}", how, v.brief(), e, hex(&b))),
            }
        }
        ensure!(d.i + raw == b.len(), "wire", "{:?} write left {} bytes after the last element", how, b.len() - d.i);
        if !streams.contains(&b) {
            streams.push(b);
        }
    }
    // legal forms of a foreign writer
    {
        let f = Forms { shuffle: false, ..forms(&mut c.w) };
        let mut b = vec![];
        for p in &ps {
            let mut e = Enc::new(f, &mut c.w);
            match p {
                Part::Msg(n, t, s, v) => {
                    b.extend(message_header(n, *t, *s));
                    e.val(v);
                }
                Part::Val(v) => e.val(v),
            }
            b.extend(e.out);
        }
        b.extend(prog.iter().filter_map(|p| if let El::Byte(x) = p { Some(*x) } else { None }));
        streams.push(b);
    }
    for b in &streams {
        for how in HOWS {
            let mut cfg = Cfg::draw(&c.world);
            if how == How::Async {
                cfg = cfg.no_eintr();
            }
            let src = SimReader::new(&c.world, 2, b.clone(), cfg);
            let mut s = ReadSession::new(how, &src, usize::MAX);
            for (i, op) in prog.iter().enumerate() {
                match s.elem(op)? {
                    Ok(g) => ensure!(g == op.expect(), "wrong-element", "{:?} read of element {} {:?} gave {:?}; stream {}", how, i, op, g, hex(b)),
                    Err(k) => return fail("refused", format!("{:?} read of element {} {:?}: {:?}; stream {}", how, i, op, k, hex(b))),
                }
            }
            ensure!(src.pos() == b.len(), "consumption", "{:?} read of the whole sequence consumed {} of {} bytes", how, src.pos(), b.len());
        }
    }
    Ok(())
}

// ---- C20 ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum W {
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
}
const WS: [W; 8] = [W::U8, W::U16, W::U32, W::U64, W::I8, W::I16, W::I32, W::I64];
impl W {
    fn bits(self) -> u32 {
        match self {
            W::U8 | W::I8 => 8,
            W::U16 | W::I16 => 16,
            W::U32 | W::I32 => 32,
            _ => 64,
        }
    }
    fn signed(self) -> bool {
        matches!(self, W::I8 | W::I16 | W::I32 | W::I64)
    }
    /// most bytes a varint of this width takes
    fn max(self) -> usize {
        ((self.bits() + 6) / 7) as usize
    }
    fn wire(self, v: i128) -> Vec<u8> {
        let mut o = vec![];
        if self.signed() {
            let v = v as i64;
            put_varint(&mut o, ((v << 1) ^ (v >> 63)) as u64);
        } else {
            put_varint(&mut o, v as u64);
        }
        o
    }
    fn gen(self, t: &mut Tape) -> i128 {
        let b = self.bits();
        let v: i128 = match t.draw(5) {
            0 => t.draw(4) as i128,
            // around the length boundaries
            1 | 2 => {
                let k = t.draw(self.max() as u64 + 1) as u32;
                let shift = (7 * k).min(b) - if self.signed() && k > 0 { 1 } else { 0 };
                let x = (1i128 << shift) + t.draw(5) as i128 - 2;
                if self.signed() && t.chance(1, 2) {
                    -x
                } else {
                    x
                }
            }
            3 => {
                let top = if self.signed() { (1i128 << (b - 1)) - 1 } else { (1i128 << b) - 1 };
                if self.signed() && t.chance(1, 2) {
                    -top - 1 + t.draw(2) as i128
                } else {
                    top - t.draw(2) as i128
                }
            }
            _ => t.raw() as i64 as i128,
        };
        // wrap into the width
        let m = 1i128 << b;
        let v = ((v % m) + m) % m;
        if self.signed() && v >= m / 2 {
            v - m
        } else {
            v
        }
    }
}

macro_rules! by_width {
    ($w:expr, $t:ident, $e:expr) => {
        match $w {
            W::U8 => { type $t = u8; $e }
            W::U16 => { type $t = u16; $e }
            W::U32 => { type $t = u32; $e }
            W::U64 => { type $t = u64; $e }
            W::I8 => { type $t = i8; $e }
            W::I16 => { type $t = i16; $e }
            W::I32 => { type $t = i32; $e }
            W::I64 => { type $t = i64; $e }
        }
    };
}

fn vi_write(w: W, v: i128, how: How, sink: &SimWriter, spurious: u64) -> R<Result<usize, ErrorKind>> {
    let mut t = sink.clone();
    let r = if how == How::Async {
        by_width!(w, T, block_on(&sink.world, spurious, || async move { t.write_varint_async(v as T).await })?)
    } else {
        by_width!(w, T, guarded(|| t.write_varint(v as T))?)
    };
    Ok(r.map_err(|e| e.kind()))
}
fn vi_read(w: W, how: How, src: &SimReader, spurious: u64) -> R<Result<i128, ErrorKind>> {
    let mut t = src.clone();
    let r = if how == How::Async {
        by_width!(w, T, block_on(&src.world, spurious, || async move { t.read_varint_async::<T>().await.map(|x| x as i128) })?)
    } else {
        by_width!(w, T, guarded(|| t.read_varint::<T>().map(|x| x as i128))?)
    };
    src.world.note(|| format!("{:?} read of {:?} -> {:?} at {}", how, w, r, src.pos()));
    Ok(r.map_err(|e| e.kind()))
}

pub fn c20(c: &mut Ctx) -> R<()> {
    let n = c.w.range(1, 12) as usize;
    let items: Vec<(W, i128)> = (0..n)
        .map(|_| {
            let w = c.w.pick(&WS);
            (w, w.gen(&mut c.w))
        })
        .collect();
    let mut wire = vec![];
    let mut ends = vec![];
    for (w, v) in &items {
        wire.extend(w.wire(*v));
        ends.push(wire.len());
    }
    c.world.note(|| format!("{:?} as {}", items, hex(&wire)));
    // the slice form, for streams the caller has in memory
    let mut at = 0;
    for (i, (w, v)) in items.iter().enumerate() {
        let len = ends[i] - at;
        let mut buf = vec![0x5a; len + c.w.draw(4) as usize];
        let (need, vec, put, got, torn) = by_width!(*w, T, guarded(|| {
            let x = *v as T;
            (x.required_space(), x.encode_var_vec(), x.encode_var(&mut buf), T::decode_var(&wire[at..]).map(|(x, n)| (x as i128, n)), T::decode_var(&wire[at..at + len - 1]).map(|(x, n)| (x as i128, n)))
        })?);
        ensure!(need == len && put == len, "count", "{:?} {} takes {} bytes; required_space {}, encode_var {}", w, v, len, need, put);
        ensure!(vec == wire[at..ends[i]] && buf[..len] == wire[at..ends[i]] && buf[len..].iter().all(|b| *b == 0x5a), "wire", "{:?} {} was encoded as {} and {}", w, v, hex(&vec), hex(&buf));
        ensure!(got == Some((*v, len)), "wrong-value", "{:?} {} was decoded as {:?} from {}", w, v, got, hex(&wire[at..]));
        ensure!(torn.is_none(), "torn", "{:?} {} without its last byte was decoded as {:?}", w, v, torn);
        at = ends[i];
    }
    for how in [How::Sync, How::Async] {
        let clean = |c: Cfg| if how == How::Async { c.no_eintr() } else { c };
        let spurious = c.world.with(|w| w.s.pick(&[0, 0, 4]));
        // write
        let sink = SimWriter::new(&c.world, 1, clean(Cfg::draw(&c.world)));
        for (i, (w, v)) in items.iter().enumerate() {
            let before = sink.len();
            match vi_write(*w, *v, how, &sink, spurious)? {
                Ok(k) => ensure!(k == sink.len() - before, "count", "{:?} write of {:?} {} returned {}, delivered {}", how, w, v, k, sink.len() - before),
                Err(k) => return fail("write-error", format!("{:?} write of {:?} {}: {:?}", how, w, v, k)),
            }
            ensure!(sink.got()[before..] == w.wire(*v)[..], "wire", "{:?} write of {:?} {} gave {} instead of {}", how, w, v, hex(&sink.got()[before..]), hex(&w.wire(*v)));
            ensure!(sink.len() == ends[i], "wire", "{:?} write of {:?} {}", how, w, v);
        }
        // read
        let src = SimReader::new(&c.world, 2, wire.clone(), clean(Cfg::draw(&c.world)));
        for (i, (w, v)) in items.iter().enumerate() {
            let r = vi_read(*w, how, &src, spurious)?;
            ensure!(r == Ok(*v), "wrong-value", "{:?} read of {:?} {} gave {:?} from {}", how, w, v, r, hex(&w.wire(*v)));
            ensure!(src.pos() == ends[i], "consumption", "{:?} read of {:?} {} consumed {} bytes instead of {}", how, w, v, src.pos() + w.wire(*v).len() - ends[i], w.wire(*v).len());
        }
        let r = vi_read(items[0].0, how, &src, spurious)?;
        ensure!(r == Err(ErrorKind::UnexpectedEof), "end", "{:?} read of {:?} after the last varint gave {:?}", how, items[0].0, r);
        // longer than its width allows
        let w = c.w.pick(&WS);
        let cont = w.max() + c.w.draw(4) as usize;
        let fill = c.w.pick(&[0x80u8, 0xff, 0x81, 0xaa]);
        let mut b: Vec<u8> = vec![fill; cont];
        b.push(c.w.pick(&[0u8, 1, 0x7f]));
        b.extend_from_slice(&[7; 6]);
        c.world.fault("overlong_varint");
        let src = SimReader::new(&c.world, 3, b.clone(), clean(Cfg::draw(&c.world)));
        let r = vi_read(w, how, &src, spurious)?;
        ensure!(r == Err(ErrorKind::InvalidData), "overlong", "{:?} read of {:?} from the overlong {} gave {:?}", how, w, hex(&b), r);
        ensure!(src.pos() <= w.max() + 1, "overread", "{:?} read of {:?} from the overlong {} consumed {} bytes, its width allows {}", how, w, hex(&b), src.pos(), w.max());
        // cut short
        let (w, v) = items[c.w.draw(n as u64) as usize];
        let b = w.wire(v);
        let cut = c.world.draw(b.len() as u64) as usize;
        c.world.fault("torn_stream");
        let src = SimReader::new(&c.world, 4, b[..cut].to_vec(), clean(Cfg::draw(&c.world)));
        let r = vi_read(w, how, &src, spurious)?;
        ensure!(r == Err(ErrorKind::UnexpectedEof), "torn", "{:?} read of {:?} from {} of {} gave {:?}", how, w, cut, hex(&b), r);
        // failing transport
        let kind = c.world.kind(how != How::Async);
        let src = SimReader::new(&c.world, 5, b.clone(), clean(Cfg::draw(&c.world))).fail_at(cut, kind, c.world.chance(1, 2));
        let r = vi_read(w, how, &src, spurious)?;
        ensure!(r == Err(kind), "failure", "{:?} read of {:?} over a transport failing with {:?} after {} of {} gave {:?}", how, w, kind, cut, hex(&b), r);
    }
    Ok(())
}

// ---- C22 ----

pub const KINDS: [ApplicationErrorKind; 11] = [
    ApplicationErrorKind::Unknown,
    ApplicationErrorKind::UnknownMethod,
    ApplicationErrorKind::InvalidMessageType,
    ApplicationErrorKind::WrongMethodName,
    ApplicationErrorKind::BadSequenceId,
    ApplicationErrorKind::MissingResult,
    ApplicationErrorKind::InternalError,
    ApplicationErrorKind::ProtocolError,
    ApplicationErrorKind::InvalidTransform,
    ApplicationErrorKind::InvalidProtocol,
    ApplicationErrorKind::UnsupportedClientType,
];

pub fn app_write(e: &ApplicationError, how: How, sink: &SimWriter) -> R<Out<()>> {
    let mut s = WriteSession::new(how, sink);
    let r = match &mut s.p {
        OutP::Sync(p) => guarded(|| Error::write_application_error_to_out_protocol(e, p)),
        OutP::Boxed(p) => guarded(|| Error::write_application_error_to_out_protocol(e, &mut **p)),
        OutP::Async(_) => unreachable!(),
    }?;
    sink.world.note(|| format!("write of {:?} -> {:?}", e, r.as_ref().map_err(kind_of)));
    Ok(conv(r))
}
pub fn app_read(how: How, src: &SimReader, limit: usize) -> R<Out<ApplicationError>> {
    let mut s = ReadSession::new(how, src, limit);
    let r = match &mut s.p {
        In::Sync(p) => guarded(|| Error::read_application_error_from_in_protocol(p)),
        In::Boxed(p) => guarded(|| Error::read_application_error_from_in_protocol(p)),
        In::Async(_) => unreachable!(),
    }?;
    src.world.note(|| format!("read -> {:?}", r.as_ref().map_err(kind_of)));
    Ok(conv(r))
}

/// A service reports the numeric codes of error kinds, and its caller converts them back.
fn codes(c: &mut Ctx) -> R<()> {
    use parquet_format_safe::thrift::{ProtocolErrorKind as P, TransportErrorKind as T};
    use std::convert::TryFrom;
    const TS: [T; 7] = [T::Unknown, T::NotOpen, T::AlreadyOpen, T::TimedOut, T::EndOfFile, T::NegativeSize, T::SizeLimit];
    const PS: [P; 7] = [P::Unknown, P::InvalidData, P::NegativeSize, P::SizeLimit, P::BadVersion, P::NotImplemented, P::DepthLimit];
    let (whow, rhow) = (c.w.pick(&HOWS), c.w.pick(&HOWS));
    let (t, p, a) = (c.w.draw(7) as usize, c.w.draw(7) as usize, c.w.draw(11) as usize);
    let other = match c.w.draw(3) {
        0 => c.w.range(11, 300) as i32,
        1 => -(c.w.range(1, 300) as i32),
        _ => c.w.raw() as u32 as i32 | 16,
    };
    let sink = SimWriter::new(&c.world, 11, Cfg::draw(&c.world).no_eintr());
    let mut s = WriteSession::new(whow, &sink);
    let sent = [TS[t] as i32, PS[p] as i32, KINDS[a] as i32, other];
    for x in sent {
        let r = s.elem(&El::I32(x))?;
        ensure!(r.is_ok(), "write-error", "{:?} write of the code {}: {:?}", whow, x, r);
    }
    drop(s);
    ensure!(sent[..3] == [t as i32, p as i32, a as i32], "wrong-code", "{:?}, {:?} and {:?} have the codes {:?}", TS[t], PS[p], KINDS[a], &sent[..3]);
    let src = SimReader::new(&c.world, 12, sink.got(), Cfg::draw(&c.world).no_eintr());
    let mut s = ReadSession::new(rhow, &src, usize::MAX);
    for (i, x) in sent.iter().enumerate() {
        let r = s.elem(&El::I32(0))?;
        ensure!(r == Ok(Got::I32(*x)), "wrong-code", "the code {} was read as {:?}", x, r);
        if i < 3 {
            let ok = match i {
                0 => matches!(T::try_from(*x), Ok(k) if k == TS[t]),
                1 => matches!(P::try_from(*x), Ok(k) if k == PS[p]),
                _ => matches!(ApplicationErrorKind::try_from(*x), Ok(k) if k == KINDS[a]),
            };
            ensure!(ok, "wrong-code", "the code {} of {} is not converted back", x, ["a transport error", "a protocol error", "an application error"][i]);
        } else {
            ensure!(T::try_from(*x).is_err() && P::try_from(*x).is_err() && ApplicationErrorKind::try_from(*x).is_err(), "wrong-code", "the code {} of no kind is converted", x);
        }
    }
    Ok(())
}

pub fn c22(c: &mut Ctx) -> R<()> {
    let code = c.w.draw(11) as usize;
    let msg = if c.w.chance(1, 400) {
        let n = c.w.pick(&[1000usize, 1023, 1024, 1025, 2047, 2048, 4097, 32_767, 32_768, 65_535, 65_536]);
        let ch = c.w.pick(&["x", "é", "€"]);
        ch.repeat(n / ch.len()) + "!"
    } else {
        Gen::new(&mut c.w, 400, false).string()
    };
    let e = ApplicationError { kind: KINDS[code], message: msg.clone() };
    let tree = Val::Struct(vec![(1, Val::Bytes(msg.clone().into_bytes())), (2, Val::I32(code as i32))]);
    let full = encode(&tree);
    codes(c)?;
    for how in [How::Sync, How::Boxed] {
        // a working exchange
        let sink = SimWriter::new(&c.world, 1, Cfg::draw(&c.world));
        match app_write(&e, how, &sink)? {
            Ok(()) => {}
            Err(k) => return fail("write-error", format!("{:?} write of {:?}: {:?}", how, e, k)),
        }
        ensure!(sink.durable() == sink.len(), "not-flushed", "{:?} write of {:?} succeeded with {} of {} bytes flushed", how, e, sink.durable(), sink.len());
        let b = sink.got();
        match decode_all(&b, T_STRUCT) {
            Ok(t) => ensure!(sorted(&t) == tree, "wire", "{:?} write of {:?} decodes to {}", how, e, t.brief()),
            Err(x) => return fail("wire", format!("{:?} write of {:?} is no struct: {}; {}", how, e, x, hex(&b))),
        }
        let mut padded = b.clone();
        padded.extend_from_slice(&[0x55; 3]);
        let src = SimReader::new(&c.world, 2, padded, Cfg::draw(&c.world));
        let r = app_read(how, &src, usize::MAX)?;
        ensure!(r.as_ref() == Ok(&e), "round-trip", "{:?}: {:?} was read back as {:?}", how, e, r);
        ensure!(src.pos() == b.len(), "consumption", "{:?} read of {:?} consumed {} of {} bytes", how, e, src.pos(), b.len());

        // a failing or full sink
        let at = c.world.draw(full.len() as u64 + 1) as usize;
        let (f, want) = if c.world.chance(1, 3) {
            (WFail::Zero, category(ErrorKind::WriteZero))
        } else {
            let k = c.world.kind(true);
            (WFail::Err(k), category(k))
        };
        let sink = SimWriter::new(&c.world, 3, Cfg::draw(&c.world)).fail_at(at, f, c.world.chance(1, 2));
        let flush_kind = if at >= b.len() { Some(c.world.kind(true)) } else { None };
        sink.get().flush_fail = flush_kind;
        if flush_kind.is_none() || at < b.len() {
            let r = app_write(&e, how, &sink)?;
            ensure!(r == Err(want), "acknowledged", "{:?} write of {:?} into a sink failing with {:?} at byte {}: {:?}, expected {:?}", how, e, f, at, r, want);
        } else {
            let r = app_write(&e, how, &sink)?;
            ensure!(r == Err(category(flush_kind.unwrap())), "acknowledged", "{:?} write of {:?} with a failing flush ({:?}): {:?}", how, e, flush_kind, r);
        }
        ensure!(b.starts_with(&sink.got()), "not-a-prefix", "{:?} failed write of {:?} left {}", how, e, hex(&sink.got()));

        // what other peers may send
        let mut fs = vec![];
        let (mut want_msg, mut want_kind) = ("general remote error".to_string(), ApplicationErrorKind::Unknown);
        if c.w.chance(3, 4) {
            fs.push((1, Val::Bytes(msg.clone().into_bytes())));
            want_msg = msg.clone();
        }
        if c.w.chance(3, 4) {
            let n = match c.w.draw(3) {
                0 => c.w.draw(11) as i32,
                1 => c.w.pick(&[11, -1, 12, 100, i32::MAX, i32::MIN, 256, 1 << 16]),
                _ => c.w.raw() as i32,
            };
            fs.push((2, Val::I32(n)));
            want_kind = KINDS.get(n as u32 as usize).copied().filter(|_| n >= 0).unwrap_or(ApplicationErrorKind::Unknown);
        }
        for _ in 0..c.w.draw(4) {
            let mut g = AnyGen { depth: 4, budget: 20, utf8: false };
            let ty = g.ty(&mut c.w, false);
            let v = g.val(&mut c.w, ty, 0);
            let id = loop {
                let id = g.next_id(&mut c.w, 2) as i16;
                if id != 1 && id != 2 {
                    break id;
                }
                break 3;
            };
            let at = c.w.draw(fs.len() as u64 + 1) as usize;
            fs.insert(at, (id, v));
        }
        let sent = Val::Struct(fs);
        let bytes = {
            let f = forms(&mut c.w);
            let mut en = Enc::new(f, &mut c.w);
            en.val(&sent);
            en.out
        };
        let src = SimReader::new(&c.world, 4, bytes.clone(), Cfg::draw(&c.world));
        let r = app_read(how, &src, usize::MAX)?;
        let want_e = ApplicationError { kind: want_kind, message: want_msg };
        ensure!(r.as_ref() == Ok(&want_e), "wrong-value", "{:?} read of {} gave {:?} instead of {:?}", how, sent.brief(), r, want_e);
        ensure!(src.pos() == bytes.len(), "consumption", "{:?} read of {} consumed {} of {} bytes", how, sent.brief(), src.pos(), bytes.len());

        // a torn or failing transport
        let cut = c.world.draw(bytes.len() as u64) as usize;
        c.world.fault("torn_stream");
        let src = SimReader::new(&c.world, 5, bytes[..cut].to_vec(), Cfg::draw(&c.world));
        let r = app_read(how, &src, usize::MAX)?;
        ensure!(r == Err(EOF_KIND), "torn", "{:?} read from {} of {} bytes gave {:?}", how, cut, bytes.len(), r);
        let kind = c.world.kind(true);
        let src = SimReader::new(&c.world, 6, bytes.clone(), Cfg::draw(&c.world)).fail_at(cut, kind, c.world.chance(1, 2));
        let r = app_read(how, &src, usize::MAX)?;
        ensure!(r == Err(category(kind)), "failure", "{:?} read over a transport failing with {:?} at {} gave {:?}", how, kind, cut, r);
    }
    Ok(())
}
