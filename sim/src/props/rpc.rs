//! C25: callers and a server exchange messages over a faulty network.
use super::elem::{app_read, app_write, KINDS};
use super::Ctx;
use crate::drive::*;
use crate::ensure;
use crate::exec::{fail, R};
use crate::io::*;
use crate::schema::*;
use crate::val::*;
use parquet_format_safe::thrift::protocol::{
    field_id, verify_expected_message_type, verify_expected_sequence_number, verify_expected_service_call,
    verify_required_field_exists, TFieldIdentifier, TMessageType, TType,
};
use parquet_format_safe::thrift::{ApplicationError, ApplicationErrorKind as A, ProtocolErrorKind};
use std::collections::BTreeMap;

const CALL: u8 = 1;
const REPLY: u8 = 2;
const EXCEPTION: u8 = 3;
const ONEWAY: u8 = 4;

/// What a message says (known to the simulation, not to its receiver).
#[derive(Clone, PartialEq, Debug)]
struct Head {
    name: String,
    ty: u8,
    seq: u32,
}
#[derive(Clone, PartialEq, Debug)]
enum Body {
    Args(u64, usize),
    /// a result: the id of the call it answers, and the value if there is one
    Result(u64, Option<usize>),
    Failure(u64, usize, String),
}
#[derive(Clone)]
struct Gram {
    head: Head,
    body: Body,
    bytes: Vec<u8>,
    /// a confused peer changed it or what it answers: its head says what it is taken for
    twisted: bool,
}
struct Caller {
    how: How,
    /// service name and argument of each call
    calls: Vec<(String, usize)>,
    done: usize,
    seq: u32,
    /// the outstanding attempt
    out: Option<(Head, u64)>,
    tries: u32,
    deadline: u64,
}
#[derive(Clone)]
enum Ev {
    ToServer(usize, Gram),
    ToCaller(usize, Gram),
    Timeout(usize, u64),
    Start(usize),
    Restart,
}
struct Net {
    q: BTreeMap<(u64, u64), Ev>,
    n: u64,
}
impl Net {
    fn at(&mut self, t: u64, e: Ev) {
        self.n += 1;
        self.q.insert((t, self.n), e);
    }
}
const NAMES: [&str; 9] = [
    "get", "fail", "nothing", "unknown", "get2", "", "get_column_chunk_meta_data_by_name", "Files.Pages:read-page_header", "größe_der_zeilengruppe_lesen",
];

fn sched(c: &Ctx, how: How) -> Cfg {
    let f = Cfg::draw(&c.world);
    if how == How::Async {
        f.no_eintr()
    } else {
        f
    }
}

/// Write a message through the crate. A failing application error is only writable by blocking writers.
fn send(c: &Ctx, how: How, head: &Head, body: &Body, vals: &[(&'static Ops, DynVal)]) -> R<Vec<u8>> {
    let how = if matches!(body, Body::Failure(..)) && how == How::Async { How::Sync } else { how };
    let sink = SimWriter::new(&c.world, 1, sched(c, how));
    let mut s = WriteSession::new(how, &sink);
    let mut total = 0;
    let mut put = |s: &mut WriteSession, e: El| -> R<()> {
        match s.elem(&e)? {
            Ok(n) => {
                total += n;
                Ok(())
            }
            Err(k) => fail("write-error", format!("{:?} write of {:?}: {:?}", how, e, k)),
        }
    };
    put(&mut s, El::MsgBegin(head.name.clone(), head.ty, head.seq))?;
    match body {
        Body::Failure(_, kind, msg) => {
            // the application error is written by the crate's own function, through the same sink
            let e = ApplicationError { kind: KINDS[*kind], message: msg.clone() };
            match app_write(&e, how, &sink)? {
                Ok(()) => {}
                Err(k) => return fail("write-error", format!("{:?} write of {:?}: {:?}", how, e, k)),
            }
        }
        Body::Args(id, v) | Body::Result(id, Some(v)) => {
            put(&mut s, El::StructBegin)?;
            put(&mut s, El::FieldBegin(0, T_STRUCT))?;
            match s.value(&*vals[*v].1)? {
                Ok(_) => {}
                Err(k) => return fail("write-error", format!("{:?} write of an argument: {:?}", how, k)),
            }
            put(&mut s, El::FieldEnd)?;
            put(&mut s, El::FieldBegin(1, T_I64))?;
            put(&mut s, El::I64(*id as i64))?;
            put(&mut s, El::FieldEnd)?;
            put(&mut s, El::FieldStop)?;
            put(&mut s, El::StructEnd)?;
        }
        Body::Result(id, None) => {
            put(&mut s, El::StructBegin)?;
            put(&mut s, El::FieldBegin(1, T_I64))?;
            put(&mut s, El::I64(*id as i64))?;
            put(&mut s, El::FieldEnd)?;
            put(&mut s, El::FieldStop)?;
            put(&mut s, El::StructEnd)?;
        }
    }
    put(&mut s, El::MsgEnd)?;
    if let Err(k) = s.flush()? {
        return fail("write-error", format!("{:?} flush: {:?}", how, k));
    }
    ensure!(sink.durable() == sink.len(), "not-flushed", "{:?} write of a message: {} of {} bytes flushed", how, sink.durable(), sink.len());
    Ok(sink.got())
}

/// A struct of an optional value (field 0) and a call id (field 1), as generated code reads it.
fn read_payload(s: &mut ReadSession, ops: &'static Ops) -> R<Out<(Option<DynVal>, Option<i64>)>> {
    macro_rules! go {
        ($e:expr) => {
            match $e? {
                Ok(x) => x,
                Err(k) => return Ok(Err(k)),
            }
        };
    }
    let (mut v, mut id) = (None, None);
    go!(s.elem(&El::StructBegin));
    loop {
        let (fid, ty) = match go!(s.elem(&El::FieldStop)) {
            Got::Field(i, t) => (i, t),
            g => return fail("wrong-element", format!("{:?}", g)),
        };
        if ty == TType::Stop {
            break;
        }
        let ident = TFieldIdentifier::new::<Option<String>, String, Option<i16>>(None, ty, fid);
        match conv(field_id(&ident)) {
            Err(k) => return Ok(Err(k)),
            Ok(0) => v = Some(go!(s.value(ops))),
            Ok(1) => match go!(s.elem(&El::I64(0))) {
                Got::I64(x) => id = Some(x),
                g => return fail("wrong-element", format!("{:?}", g)),
            },
            Ok(_) => go!(s.skip(ty, None)),
        }
        go!(s.elem(&El::FieldEnd));
    }
    go!(s.elem(&El::StructEnd));
    Ok(Ok((v, id)))
}

pub fn c25(c: &mut Ctx) -> R<()> {
    let nvals = c.w.range(1, 3) as usize;
    let ops = pick_ops(&mut c.w);
    let vals: Vec<(&'static Ops, DynVal)> = (0..nvals).map(|_| (ops, gen_value(&mut c.w, ops, Size::Small))).collect();
    let ncallers = c.w.range(1, 3) as usize;
    let mut callers: Vec<Caller> = (0..ncallers)
        .map(|_| Caller {
            how: c.w.pick(&HOWS),
            calls: (0..c.w.range(1, 3))
                .map(|_| {
                    let n = if c.w.chance(1, 6) { Gen::new(&mut c.w, 40, false).string() } else { c.w.pick(&NAMES).to_string() };
                    (n, c.w.draw(nvals as u64) as usize)
                })
                .collect(),
            done: 0,
            seq: match c.w.draw(4) {
                0 => 0,
                1 => u32::MAX - c.w.draw(4) as u32,
                2 => i32::MAX as u32 - c.w.draw(4) as u32,
                _ => c.w.draw(300) as u32,
            },
            out: None,
            tries: 0,
            deadline: 0,
        })
        .collect();
    let server_how = c.w.pick(&HOWS);
    let failures: Vec<(usize, String)> = (0..2).map(|_| (c.w.draw(11) as usize, Gen::new(&mut c.w, 40, false).string())).collect();
    // faults stop at this time
    let quiet = c.world.draw(400);
    let (p_lose, p_dup, p_twist, p_stray) = c.world.with(|w| {
        let s = &mut w.s;
        (s.pick(&[0, 1, 4, 8]), s.pick(&[0, 1, 4]), s.pick(&[0, 1, 4, 8]), s.pick(&[0, 0, 2, 4]))
    });
    let mut net = Net { q: BTreeMap::new(), n: 0 };
    for i in 0..ncallers {
        net.at(c.world.draw(20), Ev::Start(i));
    }
    if c.world.chance(1, 3) {
        net.at(c.world.draw(300), Ev::Restart);
    }
    let mut ids = 0u64;
    let mut down_until = 0u64;
    let mut now;
    let mut steps = 0;
    let mut accepted: Vec<u64> = vec![];
    while let Some(((t, _), ev)) = net.q.pop_first() {
        now = t;
        steps += 1;
        c.world.with(|w| w.clock = w.clock.max(now));
        let noisy = now < quiet;
        if steps > 400 {
            return fail("no-progress", format!("{} events and not all calls are completed", steps));
        }
        match ev {
            Ev::Restart => {
                // what is in flight to it is lost, and it is away for a while
                c.world.fault("crash_restart");
                down_until = now + 1 + c.world.draw(100);
            }
            Ev::Start(i) | Ev::Timeout(i, _) => {
                if let Ev::Timeout(_, id) = ev {
                    if callers[i].out.as_ref().map(|o| o.1) != Some(id) || callers[i].deadline > now {
                        continue;
                    }
                    c.world.probe("timeouts");
                }
                let k = &mut callers[i];
                if k.done == k.calls.len() {
                    continue;
                }
                k.tries += 1;
                ensure!(k.tries < 60, "no-progress", "call {} of caller {} was tried {} times", k.done, i, k.tries);
                k.seq = k.seq.wrapping_add(1);
                ids += 1;
                let (name, v) = k.calls[k.done].clone();
                let head = Head { name, ty: CALL, seq: k.seq };
                let body = Body::Args(ids, v);
                let how = k.how;
                k.out = Some((head.clone(), ids));
                k.deadline = now + 150;
                let bytes = send(c, how, &head, &body, &vals)?;
                net.at(now + 150, Ev::Timeout(i, ids));
                let g = Gram { head, body, bytes, twisted: false };
                carry(c, &mut net, now, noisy, (p_lose, p_dup, p_twist, p_stray), ncallers, &|g, j| Ev::ToServer(j, g), i, g, &vals, how)?;
            }
            Ev::ToServer(i, g) => {
                if now < down_until {
                    continue;
                }
                // the server reads the call and answers it
                let src = SimReader::new(&c.world, 10, g.bytes.clone(), sched(c, server_how));
                let mut s = ReadSession::new(server_how, &src, usize::MAX);
                let head = read_head(&mut s, &g, server_how)?;
                let (want_id, want_v) = match &g.body {
                    Body::Args(id, v) => (*id, *v),
                    b => return fail("harness", format!("{:?} sent to the server", b)),
                };
                let (v, id) = match read_payload(&mut s, ops)? {
                    Ok((Some(v), Some(id))) => (v, id as u64),
                    r => return fail("refused", format!("the server's {:?} read of {:?} gave {}", server_how, head, show(&r, |x| format!("{} {:?}", x.0.is_some(), x.1)))),
                };
                let e = s.elem(&El::MsgEnd)?;
                ensure!(e == Ok(Got::Unit) && src.pos() == g.bytes.len(), "consumption", "the server's {:?} read of {:?} consumed {} of {} bytes", server_how, head, src.pos(), g.bytes.len());
                ensure!(id == want_id && v.same(&*vals[want_v].1), "wrong-value", "the server's {:?} read of call {} gave {} {}", server_how, want_id, id, v.tree().brief());
                if conv(verify_expected_message_type(TMessageType::Call, mtype_of(head.ty))).is_err() {
                    ensure!(head.ty != CALL, "refused", "the server refused {:?} as no call", head);
                    continue;
                }
                ensure!(head.ty == CALL, "accepted", "the server accepted {:?} as a call", head);
                let (ty, body) = match head.name.as_str() {
                    "get" | "get2" | "" => (REPLY, Body::Result(id, Some(want_v))),
                    "nothing" => (REPLY, Body::Result(id, None)),
                    "fail" => (EXCEPTION, Body::Failure(id, failures[0].0, failures[0].1.clone())),
                    _ => (EXCEPTION, Body::Failure(id, 1, failures[1].1.clone())),
                };
                let head = Head { name: head.name, ty, seq: head.seq };
                let bytes = send(c, server_how, &head, &body, &vals)?;
                let g = Gram { head, body, bytes, twisted: g.twisted };
                let d = now + c.world.draw(20);
                carry(c, &mut net, d, noisy, (p_lose, p_dup, p_twist, p_stray), ncallers, &|g, j| Ev::ToCaller(j, g), i, g, &vals, server_how)?;
            }
            Ev::ToCaller(i, g) => {
                let how = callers[i].how;
                let (want, id) = match &callers[i].out {
                    Some(o) => o.clone(),
                    None => continue,
                };
                // an application error is read by blocking readers only
                let src = SimReader::new(&c.world, 20 + i as u32, g.bytes.clone(), sched(c, how));
                let mut s = ReadSession::new(how, &src, usize::MAX);
                let head = read_head(&mut s, &g, how)?;
                let got = check_head(&want, &head);
                let should = if g.head.seq != want.seq {
                    Err(Kind::A(A::BadSequenceId))
                } else if g.head.name != want.name {
                    Err(Kind::A(A::WrongMethodName))
                } else if g.head.ty != EXCEPTION && g.head.ty != REPLY {
                    Err(Kind::A(A::InvalidMessageType))
                } else {
                    Ok(())
                };
                ensure!(got == should, "verdict", "a caller waiting for {:?} judged {:?} as {:?} instead of {:?}", want, g.head, got, should);
                if got.is_err() {
                    c.world.probe("refused_replies");
                    continue;
                }
                if head.ty == EXCEPTION {
                    let (kind, msg) = match &g.body {
                        Body::Failure(x, k, m) => {
                            ensure!(g.twisted || *x == id, "wrong-reply", "the reply to call {} was taken for one to call {}", x, id);
                            (KINDS[*k], m.clone())
                        }
                        // a result under the type of an exception
                        _ => {
                            let r = s.skip(TType::Struct, None)?;
                            ensure!(r == Ok(()), "refused", "{:?} skip of a result: {:?}", how, r);
                            continue;
                        }
                    };
                    if how == How::Async {
                        let r = s.skip(TType::Struct, None)?;
                        ensure!(r == Ok(()), "refused", "asynchronous skip of an application error: {:?}", r);
                    } else {
                        let rest = SimReader::new(&c.world, 30, g.bytes[src.pos()..].to_vec(), sched(c, how));
                        let r = app_read(how, &rest, usize::MAX)?;
                        let w = ApplicationError { kind, message: msg };
                        ensure!(r.as_ref() == Ok(&w), "wrong-error", "{:?} read of {:?} gave {:?}", how, w, r);
                        ensure!(rest.pos() + src.pos() == g.bytes.len(), "consumption", "{:?} read of an application error consumed {} of {} bytes", how, rest.pos(), g.bytes.len() - src.pos());
                    }
                    c.world.probe("exceptions");
                } else {
                    let r = read_payload(&mut s, ops)?;
                    let (v, got_id) = match (&g.body, r) {
                        (_, Ok(x)) => x,
                        // an application error under the type of a reply: its fields have other types
                        (Body::Failure(..), Err(_)) => continue,
                        (b, Err(k)) => return fail("refused", format!("{:?} read of {:?}: {:?}", how, b, k)),
                    };
                    match &g.body {
                        Body::Failure(..) => continue,
                        Body::Args(..) => return fail("harness", "arguments sent to a caller"),
                        Body::Result(x, want_v) => {
                            ensure!(got_id == Some(*x as i64) && (g.twisted || *x == id), "wrong-reply", "the reply to call {} was taken for one to call {} ({:?})", x, id, got_id);
                            let present = conv(verify_required_field_exists("result", &v));
                            match want_v {
                                Some(k) => {
                                    ensure!(present == Ok(()), "verdict", "a present result was judged {:?}", present);
                                    let v = v.unwrap();
                                    ensure!(v.same(&*vals[*k].1), "wrong-value", "{:?}: the result {} was read as {}", how, vals[*k].1.tree().brief(), v.tree().brief());
                                }
                                None => ensure!(present == Err(Kind::P(ProtocolErrorKind::Unknown)) && v.is_none(), "verdict", "a missing result was judged {:?}", present),
                            }
                        }
                    }
                    let e = s.elem(&El::MsgEnd)?;
                    ensure!(e == Ok(Got::Unit) && src.pos() == g.bytes.len(), "consumption", "{:?} read of {:?} consumed {} of {} bytes", how, head, src.pos(), g.bytes.len());
                    c.world.probe("results");
                }
                ensure!(!accepted.contains(&id), "twice", "call {} was answered twice", id);
                accepted.push(id);
                let k = &mut callers[i];
                k.out = None;
                k.done += 1;
                k.tries = 0;
                net.at(now + c.world.draw(10), Ev::Start(i));
            }
        }
    }
    for (i, k) in callers.iter().enumerate() {
        ensure!(k.done == k.calls.len(), "no-progress", "caller {} completed {} of {} calls after the faults stopped", i, k.done, k.calls.len());
    }
    Ok(())
}

fn mtype_of(t: u8) -> TMessageType {
    match t {
        CALL => TMessageType::Call,
        REPLY => TMessageType::Reply,
        EXCEPTION => TMessageType::Exception,
        _ => TMessageType::OneWay,
    }
}

fn read_head(s: &mut ReadSession, g: &Gram, how: How) -> R<Head> {
    match s.elem(&El::MsgBegin(String::new(), 1, 0))? {
        Ok(Got::Msg(name, ty, seq)) => {
            let h = Head { name, ty, seq };
            ensure!(h == g.head, "wrong-message", "{:?} read of {:?} gave {:?}", how, g.head, h);
            Ok(h)
        }
        r => fail("refused", format!("{:?} read of {:?} gave {:?}", how, g.head, r)),
    }
}

/// The checks of a generated client, in its order.
fn check_head(want: &Head, got: &Head) -> Out<()> {
    conv(verify_expected_sequence_number(want.seq as i32, got.seq as i32))?;
    conv(verify_expected_service_call(&want.name, &got.name))?;
    if got.ty == EXCEPTION {
        return Ok(());
    }
    conv(verify_expected_message_type(TMessageType::Reply, mtype_of(got.ty)))
}

/// Deliver a message, or not, or twice, or later, or elsewhere, or changed by a confused peer.
#[allow(clippy::too_many_arguments)]
fn carry(c: &Ctx, net: &mut Net, now: u64, noisy: bool, p: (u64, u64, u64, u64), n: usize, to: &dyn Fn(Gram, usize) -> Ev, i: usize, mut g: Gram, vals: &[(&'static Ops, DynVal)], how: How) -> R<()> {
    let w = &c.world;
    let mut copies = 1;
    let mut dest = i;
    let mut slow = 20;
    if noisy {
        if w.chance(p.0, 16) {
            w.fault("message_lost");
            copies = 0;
        } else if w.chance(p.1, 16) {
            w.fault("message_duplicated");
            copies = 2;
        }
        if w.chance(2, 16) {
            w.fault("message_delayed");
            slow = 400;
        }
        if w.chance(p.3, 16) {
            w.fault("message_misrouted");
            dest = w.draw(n as u64) as usize;
            // callers count their calls alike: the head is all that it can be judged by
            g.twisted |= dest != i;
        }
        if w.chance(p.2, 16) {
            w.fault("confused_peer");
            let mut h = g.head.clone();
            match w.draw(5) {
                0 => h.seq = h.seq.wrapping_add(1),
                1 => h.seq = h.seq.wrapping_sub(1),
                2 => h.seq ^= 1 << w.draw(32),
                3 => {
                    h.name = match w.draw(16) {
                        0 => h.name.to_uppercase() + "T",
                        4 => h.name.to_uppercase(),
                        5 => format!(" {}", h.name),
                        6 => h.name.clone() + " ",
                        1 => h.name.chars().skip(1).collect(),
                        2 => h.name.clone() + "\0",
                        // the name with something before or behind it, or half of it
                        7 => h.name.clone() + w.with(|w| w.s.pick(&[":", ":x", ".", "/x", "_", "-", "2", "\n", "\r", "#"])),
                        8 => w.with(|w| w.s.pick(&["svc:", "svc.", "a/", ":", "\u{feff}", "_", "\t"])).to_string() + &h.name,
                        9 => h.name.chars().take(h.name.chars().count() / 2).collect(),
                        10 => {
                            let mut x: Vec<char> = h.name.chars().collect();
                            let n = x.len().max(1) as u64;
                            if let Some(ch) = x.get_mut(w.draw(n) as usize) {
                                *ch = char::from_u32(*ch as u32 ^ 0x20).unwrap_or('?');
                            }
                            x.into_iter().collect()
                        }
                        // one character lost, new, replaced, or moved
                        k @ 11..=14 => {
                            let mut x: Vec<char> = h.name.chars().collect();
                            let i = w.draw(x.len() as u64 + 1) as usize;
                            let j = w.draw(x.len() as u64 + 1) as usize;
                            let ch = w.with(|w| w.s.pick(&['a', 'é', '0', '\u{301}', '\u{200b}', '\u{fffd}', ' ', '_']));
                            match (k, i < x.len()) {
                                (11, true) => drop(x.remove(i)),
                                (12, true) => x[i] = ch,
                                (13, true) if j < x.len() => x.swap(i, j),
                                _ => x.insert(i, ch),
                            }
                            x.into_iter().collect()
                        }
                        _ => "get".into(),
                    }
                }
                _ => h.ty = w.with(|w| w.s.pick(&[CALL, REPLY, EXCEPTION, ONEWAY])),
            }
            g.bytes = send(c, how, &h, &g.body, vals)?;
            g.head = h;
            g.twisted = true;
        }
    }
    for _ in 0..copies {
        net.at(now + 1 + w.draw(slow), to(g.clone(), dest));
    }
    Ok(())
}
