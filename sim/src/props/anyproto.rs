//! C27: the generated code and the helpers over simulated protocols (implementations of the public
//! protocol traits other than compact).
use super::elem::KINDS;
use super::reads::with_unknown;
use super::Ctx;
use crate::drive::*;
use crate::ensure;
use crate::exec::{block_on, fail, guarded, R};
use crate::io::{lock, World};
use crate::mock::*;
use crate::schema::*;
use crate::tape::Tape;
use crate::val::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::{
    ApplicationError, Error, ProtocolErrorKind as PK, Result as TResult, TransportErrorKind as TK,
};

#[derive(Clone, Copy, PartialEq)]
enum Names {
    /// as the schema has them (what a writer must pass)
    Schema,
    /// a reader's protocol need not know them
    Absent,
    /// and a reader must not depend on them
    Foreign,
}

fn value_events(v: &Val, ty: &Ty, names: Names, out: &mut Vec<Ev>) {
    match (ty, v) {
        (Ty::Str, Val::Bytes(b)) => out.push(Ev::Str(String::from_utf8(b.clone()).unwrap())),
        (Ty::Bin, Val::Bytes(b)) => out.push(Ev::Bytes(b.clone())),
        (Ty::List(e), Val::List(_, xs)) => {
            out.push(Ev::ListBegin(ttype(e.wire()), xs.len() as u32));
            xs.iter().for_each(|x| value_events(x, e, names, out));
            out.push(Ev::ListEnd);
        }
        (Ty::Struct(d), Val::Struct(fs)) => {
            out.push(Ev::StructBegin(match names {
                Names::Schema => d.name.into(),
                Names::Absent => String::new(),
                Names::Foreign => "Peer".into(),
            }));
            for (id, x) in fs {
                let fd = d.fields.iter().find(|f| f.id == *id);
                let name = match (names, fd) {
                    (Names::Schema, Some(f)) => Some(f.thrift_name().to_string()),
                    (Names::Foreign, _) => Some("version".to_string()),
                    _ => None,
                };
                out.push(Ev::FieldBegin(name, ttype(x.ty()), Some(*id)));
                match fd {
                    Some(f) => value_events(x, &f.ty, names, out),
                    None => any_events(x, out),
                }
                out.push(Ev::FieldEnd);
            }
            out.push(Ev::FieldStop);
            out.push(Ev::StructEnd);
        }
        _ => any_events(v, out),
    }
}

fn draw_error(w: &World) -> (Kind, String) {
    const T: [TK; 7] = [TK::Unknown, TK::NotOpen, TK::AlreadyOpen, TK::TimedOut, TK::EndOfFile, TK::NegativeSize, TK::SizeLimit];
    const P: [PK; 7] = [PK::Unknown, PK::InvalidData, PK::NegativeSize, PK::SizeLimit, PK::BadVersion, PK::NotImplemented, PK::DepthLimit];
    let k = match w.draw(3) {
        0 => Kind::T(T[w.draw(7) as usize]),
        1 => Kind::P(P[w.draw(7) as usize]),
        _ => Kind::A(KINDS[w.draw(11) as usize]),
    };
    (k, format!("injected {}", w.draw(1000)))
}

fn first_difference(got: &[Ev], want: &[Ev]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let b = |e: Option<&Ev>| e.map(|e| bounded(e, 120).unwrap_or_else(|s| s)).unwrap_or_else(|| "nothing".into());
    format!("call {} is {} where {} belongs", i, b(got.get(i)), b(want.get(i)))
}

enum WItem {
    Value(&'static Ops, DynVal),
    Elem(El),
    App(ApplicationError),
    Flush,
}

fn program(t: &mut Tape) -> Vec<El> {
    let mut g = AnyGen { depth: t.range(1, 5) as u32, budget: t.pick(&[4, 20, 80]), utf8: false };
    let ty = g.ty(t, false);
    let v = g.val(t, ty, 0);
    let mut prog = vec![];
    if t.chance(1, 3) {
        let name = Gen::new(t, 40, false).string();
        prog.push(El::MsgBegin(name, t.range(1, 4) as u8, t.raw() as u32));
        flatten(&v, &mut prog);
        prog.push(El::MsgEnd);
    } else {
        flatten(&v, &mut prog);
    }
    if t.chance(1, 4) {
        prog.push(El::Byte(t.draw(256) as u8));
    }
    prog
}

fn app_error(t: &mut Tape) -> ApplicationError {
    ApplicationError { kind: KINDS[t.draw(11) as usize], message: Gen::new(t, 60, false).string() }
}

fn writes(c: &mut Ctx) -> R<()> {
    let how = c.w.pick(&HOWS);
    let mut items = vec![];
    let mut want = vec![];
    for _ in 0..c.w.range(1, 3) {
        match c.w.weighted(&[10, 5, if how == How::Async { 0 } else { 2 }, 1]) {
            0 => {
                let ops = pick_ops(&mut c.w);
                let v = gen_value(&mut c.w, ops, Size::Medium);
                value_events(&v.tree(), &Ty::Struct((ops.def)()), Names::Schema, &mut want);
                items.push(WItem::Value(ops, v));
            }
            1 => {
                for e in program(&mut c.w) {
                    want.push(elem_event(&e));
                    items.push(WItem::Elem(e));
                }
            }
            2 => {
                let e = app_error(&mut c.w);
                want.push(Ev::StructBegin("TApplicationException".into()));
                want.push(Ev::FieldBegin(Some("message".into()), TType::String, Some(1)));
                want.push(Ev::Str(e.message.clone()));
                want.push(Ev::FieldEnd);
                want.push(Ev::FieldBegin(Some("type".into()), TType::I32, Some(2)));
                want.push(Ev::I32(KINDS.iter().position(|k| *k == e.kind).unwrap() as i32));
                want.extend([Ev::FieldEnd, Ev::FieldStop, Ev::StructEnd, Ev::Flush]);
                items.push(WItem::App(e));
            }
            _ => {
                want.push(Ev::Flush);
                items.push(WItem::Flush);
            }
        }
    }
    let salt = c.world.draw(1 << 30);
    let mut m = Mock::new(&c.world, vec![], salt);
    let mut injected = None;
    if c.world.chance(1, 2) {
        let at = c.world.draw(want.len() as u64) as usize;
        let e = draw_error(&c.world);
        m = m.fail_at(at, e.clone());
        injected = Some((at, e));
    }
    let spurious = if how == How::Async { c.world.with(|w| w.s.pick(&[0, 0, 2, 8])) } else { 0 };
    let mut boxed: OutBoxed = Box::new(m.clone());
    let mut failed = None;
    for (i, it) in items.iter().enumerate() {
        let before = lock(&m.0).sum;
        let mut p = m.clone();
        let r: TResult<Option<usize>> = match (it, how) {
            (WItem::Value(_, v), How::Sync) => guarded(|| v.write_mock(&mut p))?.map(Some),
            (WItem::Value(_, v), How::Boxed) => guarded(|| v.write_boxed(&mut boxed))?.map(Some),
            (WItem::Value(_, v), How::Async) => block_on(&c.world, spurious, || v.write_mock_async(&mut p))?.map(Some),
            (WItem::Elem(e), How::Sync) => guarded(|| write_elem(&mut p, e))?.map(Some),
            (WItem::Elem(e), How::Boxed) => guarded(|| write_elem(&mut boxed, e))?.map(Some),
            (WItem::Elem(e), How::Async) => block_on(&c.world, spurious, || write_elem_async(&mut p, e))?.map(Some),
            (WItem::App(e), How::Boxed) => guarded(|| Error::write_application_error_to_out_protocol(e, &mut boxed))?.map(|_| None),
            (WItem::App(e), _) => guarded(|| Error::write_application_error_to_out_protocol(e, &mut p))?.map(|_| None),
            (WItem::Flush, How::Sync) => guarded(|| TOutputProtocol::flush(&mut p))?.map(|_| None),
            (WItem::Flush, How::Boxed) => guarded(|| boxed.flush())?.map(|_| None),
            (WItem::Flush, How::Async) => block_on(&c.world, spurious, || TOutputStreamProtocol::flush(&mut p))?.map(|_| None),
        };
        let what = || match it {
            WItem::Value(o, v) => format!("{} {}", o.name, v.tree().brief()),
            WItem::Elem(e) => format!("{:?}", e),
            WItem::App(e) => format!("{:?}", e),
            WItem::Flush => "flush".into(),
        };
        match r {
            Ok(n) => {
                let sum = lock(&m.0).sum - before;
                ensure!(n.unwrap_or(sum) == sum, "count", "{:?} write {} of {} returned {:?}, the protocol's calls returned {} in all", how, i, what(), n, sum);
            }
            Err(e) => {
                failed = Some((error_parts(&e), format!("{:?} write {} of {}", how, i, what())));
                break;
            }
        }
    }
    let s = lock(&m.0);
    let want = match &injected {
        Some((at, _)) => &want[..at + 1],
        None => &want[..],
    };
    match (&injected, &failed) {
        (Some((at, e)), Some((f, what))) => {
            ensure!(e == f, "other-error", "{} failed with {:?} where call {} failed with {:?}", what, f, at, e)
        }
        (Some((at, e)), None) => return fail("swallowed", format!("{:?} writes succeeded although call {} {} failed with {:?}", how, at, bounded(&want[*at], 100).unwrap_or_else(|s| s), e)),
        (None, Some((f, what))) => return fail("write-error", format!("{}: {:?}", what, f)),
        (None, None) => {}
    }
    ensure!(s.after.is_none(), "call-after-error", "{:?} writes: {} was called after a call had failed", how, s.after.as_ref().unwrap());
    ensure!(s.log == want, "events", "{:?} writes: {}", how, first_difference(&s.log, want));
    Ok(())
}

enum RItem {
    Value(&'static Ops, Val, Result<Val, String>),
    Elem(El),
    List(ListOf, Vec<Val>),
    Skip(Val, Option<i8>),
    App(ApplicationError),
}

/// A value as some peer may send it: unknown, repeated, lost and reordered fields.
fn peer_value(t: &mut Tape, ops: &'static Ops) -> Val {
    let v = gen_value(t, ops, Size::Medium);
    let mut tree = with_unknown(t, ops, &v);
    let d = (ops.def)();
    let (dup, lose, shuffle) = (t.chance(1, 4), t.chance(1, 12), t.chance(1, 3));
    if dup || lose || shuffle {
        let mut count = 0u64;
        for_each_struct(&mut tree, d, &mut |_, _| count += 1);
        let target = t.draw(count);
        let mut k = 0;
        for_each_struct(&mut tree, d, &mut |fs, d| {
            if k == target && !fs.is_empty() {
                let i = t.draw(fs.len() as u64) as usize;
                if dup {
                    if let Some(fd) = d.fields.iter().find(|f| f.id == fs[i].0) {
                        let x = gen_tree(&fd.ty, &mut Gen::new(t, 30, false));
                        let at = t.draw(fs.len() as u64 + 1) as usize;
                        fs.insert(at, (fd.id, x));
                    }
                } else if lose {
                    fs.remove(i);
                }
            }
            if shuffle && k.wrapping_sub(target) < 4 {
                for i in (1..fs.len()).rev() {
                    fs.swap(i, t.draw(i as u64 + 1) as usize);
                }
            }
            k += 1;
        });
    }
    tree
}

fn reads(c: &mut Ctx) -> R<()> {
    let how = c.w.pick(&HOWS);
    let names = c.w.pick(&[Names::Absent, Names::Schema, Names::Foreign]);
    let mut items = vec![];
    let mut feed = vec![];
    for _ in 0..c.w.range(1, 3) {
        match c.w.weighted(&[10, 4, 2, 4, if how == How::Async { 0 } else { 2 }]) {
            0 => {
                let ops = pick_ops(&mut c.w);
                let tree = peer_value(&mut c.w, ops);
                let want = resolve(&tree, (ops.def)());
                value_events(&tree, &Ty::Struct((ops.def)()), names, &mut feed);
                let bad = want.is_err();
                items.push(RItem::Value(ops, tree, want));
                if bad {
                    break;
                }
            }
            1 => {
                for e in program(&mut c.w) {
                    feed.push(match elem_event(&e) {
                        Ev::MapBegin(_, _, 0) => Ev::MapBegin(None, None, 0),
                        e => e,
                    });
                    items.push(RItem::Elem(e));
                }
            }
            2 => {
                let e = c.w.pick(&[ListOf::Bool, ListOf::Byte, ListOf::I64, ListOf::Str, ListOf::Bin]);
                let code = match e {
                    ListOf::Bool => T_BOOL,
                    ListOf::Byte => T_I8,
                    ListOf::I64 => T_I64,
                    _ => T_BYTES,
                };
                let mut g = AnyGen { depth: 1, budget: 1 << 40, utf8: e == ListOf::Str };
                let n = c.w.pick(&[0, 1, 3, 15, 130]);
                let vs: Vec<Val> = (0..n).map(|_| g.val(&mut c.w, code, 0)).collect();
                feed.push(Ev::ListBegin(ttype(code), n as u32));
                for v in &vs {
                    feed.push(match (e, v) {
                        (ListOf::Byte, Val::I8(x)) => Ev::Byte(*x as u8),
                        (ListOf::Str, Val::Bytes(b)) => Ev::Str(String::from_utf8(b.clone()).unwrap()),
                        (ListOf::Bin, Val::Bytes(b)) => Ev::Bytes(b.clone()),
                        (_, Val::Bool(b)) => Ev::Bool(*b),
                        (_, Val::I64(x)) => Ev::I64(*x),
                        _ => unreachable!(),
                    });
                }
                feed.push(Ev::ListEnd);
                items.push(RItem::List(e, vs));
            }
            3 => {
                let mut g = AnyGen { depth: c.w.range(1, 7) as u32, budget: c.w.pick(&[4, 20, 80]), utf8: false };
                let ty = g.ty(&mut c.w, false);
                let v = g.val(&mut c.w, ty, 0);
                let depth = match c.w.draw(4) {
                    0 => Some(v.levels() as i8 - 1),
                    1 => Some(v.levels() as i8),
                    _ => None,
                };
                any_events(&v, &mut feed);
                let bad = depth.map_or(false, |d| (d as usize) < v.levels());
                items.push(RItem::Skip(v, depth));
                if bad {
                    break;
                }
            }
            _ => {
                let e = app_error(&mut c.w);
                let mut fs = vec![(1, Val::Bytes(e.message.clone().into_bytes())), (2, Val::I32(KINDS.iter().position(|k| *k == e.kind).unwrap() as i32))];
                if c.w.chance(1, 3) {
                    fs.swap(0, 1);
                }
                for _ in 0..c.w.draw(3) {
                    let mut g = AnyGen { depth: 4, budget: 12, utf8: false };
                    let ty = g.ty(&mut c.w, false);
                    let v = g.val(&mut c.w, ty, 0);
                    let at = c.w.draw(fs.len() as u64 + 1) as usize;
                    fs.insert(at, (c.w.pick(&[3, 0, -1, 900]), v));
                }
                let at = feed.len();
                any_events(&Val::Struct(fs), &mut feed);
                // its own message is text
                let mut level = 0;
                let mut own = false;
                for e in &mut feed[at..] {
                    match e {
                        Ev::StructBegin(_) => level += 1,
                        Ev::StructEnd => level -= 1,
                        Ev::FieldBegin(_, _, id) => own = level == 1 && *id == Some(1),
                        Ev::Any(b) if own && level == 1 => *e = Ev::Str(String::from_utf8(b.clone()).unwrap()),
                        _ => {}
                    }
                }
                items.push(RItem::App(e));
            }
        }
    }
    // what the protocol does to the reader
    let mut injected = None;
    let mut twisted = false;
    let salt = c.world.draw(1 << 30);
    let mut m;
    match c.world.draw(8) {
        0 | 1 | 2 => {
            let at = c.world.draw(feed.len() as u64) as usize;
            let e = draw_error(&c.world);
            m = Mock::new(&c.world, feed.clone(), salt).fail_at(at, e.clone());
            injected = Some((at, e));
        }
        3 if matches!(items[0], RItem::Value(..)) => {
            // a field without an id, or a list of a size nobody has
            let mut f = feed.clone();
            let mut seen = vec![];
            let mut level = 0;
            for (i, e) in f.iter().enumerate() {
                match e {
                    Ev::StructBegin(_) => level += 1,
                    Ev::StructEnd if level == 1 => break,
                    Ev::StructEnd => level -= 1,
                    Ev::FieldBegin(..) if level == 1 => seen.push(i),
                    // (of the value itself, not of content that is skipped)
                    Ev::ListBegin(..) if level == 1 => {
                        if let (Some(j), RItem::Value(ops, ..)) = (seen.last(), &items[0]) {
                            if let Ev::FieldBegin(_, _, Some(id)) = &f[*j] {
                                if *j + 1 == i && (ops.def)().fields.iter().any(|x| x.id == *id) {
                                    seen.push(i)
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            if !seen.is_empty() {
                let i = seen[c.world.draw(seen.len() as u64) as usize];
                match &mut f[i] {
                    Ev::FieldBegin(_, _, id) => *id = None,
                    Ev::ListBegin(_, n) => *n = c.world.with(|w| w.s.pick(&[u32::MAX, 1 << 31, 1 << 28])),
                    _ => {}
                }
                twisted = true;
                c.world.fault("protocol_lie");
            }
            m = Mock::new(&c.world, f, salt);
        }
        _ => m = Mock::new(&c.world, feed.clone(), salt),
    }
    let spurious = if how == How::Async { c.world.with(|w| w.s.pick(&[0, 0, 2, 8])) } else { 0 };
    let mut boxed = Box::new(m.clone());
    let mut failed: Option<((Kind, String), String)> = None;
    let mut refused = false;
    for (i, it) in items.iter().enumerate() {
        let desc = match it {
            RItem::Value(o, t, _) => format!("{:?} read {} of {} {}", how, i, o.name, t.brief()),
            RItem::Elem(e) => format!("{:?} read {} of {}", how, i, bounded(e, 100).unwrap_or_else(|s| s)),
            RItem::List(e, vs) => format!("{:?} read {} of a list of {} {:?}", how, i, vs.len(), e),
            RItem::Skip(v, d) => format!("{:?} skip {} of {} to {:?}", how, i, v.brief(), d),
            RItem::App(e) => format!("{:?} read {} of {:?}", how, i, e),
        };
        c.world.note(|| desc.clone());
        let mut err: Option<Error> = None;
        match it {
            RItem::Value(ops, _, want) => {
                let r = match how {
                    How::Sync => guarded(|| (ops.read_mock)(&mut m))?,
                    How::Boxed => guarded(|| (ops.read_mock_boxed)(&mut boxed))?,
                    How::Async => block_on(&c.world, spurious, || (ops.read_mock_async)(&mut m))?,
                };
                match (r, want) {
                    (Ok(v), _) if twisted && i == 0 => return fail("accepted", format!("{} from a protocol that gave a field without id or a wrong list size: {}", desc, v.tree().brief())),
                    (Ok(v), Ok(w)) => ensure!(v.tree() == *w, "wrong-value", "{} gave {} instead of {}", desc, v.tree().brief(), w.brief()),
                    (Ok(v), Err(w)) => return fail("accepted", format!("{} gave {} although {}", desc, v.tree().brief(), w)),
                    (Err(_), _) if twisted && i == 0 => return Ok(()),
                    (Err(e), Err(_)) if injected.is_none() => {
                        ensure!(matches!(e, Error::Protocol(_)), "other-error", "{}: {:?}", desc, error_parts(&e));
                        refused = true;
                    }
                    (Err(e), _) => err = Some(e),
                }
            }
            RItem::Elem(op) => {
                let r = match how {
                    How::Sync => guarded(|| read_elem(&mut m, op))?,
                    How::Boxed => guarded(|| read_elem(&mut boxed, op))?,
                    How::Async => block_on(&c.world, spurious, || read_elem_async(&mut m, op))?,
                };
                match r {
                    Ok(g) => ensure!(g == op.expect(), "wrong-value", "{} gave {:?}", desc, g),
                    Err(e) => err = Some(e),
                }
            }
            RItem::List(e, vs) => {
                let r = match how {
                    How::Sync => guarded(|| read_list(&mut m, *e))?,
                    How::Boxed => guarded(|| read_list(&mut boxed, *e))?,
                    How::Async => block_on(&c.world, spurious, || read_list_async(&mut m, *e))?,
                };
                match r {
                    Ok(g) => ensure!(g == *vs, "wrong-value", "{} gave {}", desc, bounded(&g, 200).unwrap_or_else(|s| s)),
                    Err(e) => err = Some(e),
                }
            }
            RItem::Skip(v, depth) => {
                let t = ttype(v.ty());
                let r = match (how, depth) {
                    (How::Sync, None) => guarded(|| TInputProtocol::skip(&mut m, t))?,
                    (How::Boxed, None) => guarded(|| boxed.skip(t))?,
                    (How::Async, None) => block_on(&c.world, spurious, || TInputStreamProtocol::skip(&mut m, t))?,
                    (How::Sync, Some(d)) => guarded(|| TInputProtocol::skip_till_depth(&mut m, t, *d))?,
                    (How::Boxed, Some(d)) => guarded(|| boxed.skip_till_depth(t, *d))?,
                    (How::Async, Some(d)) => block_on(&c.world, spurious, || TInputStreamProtocol::skip_till_depth(&mut m, t, *d))?,
                };
                let bad = depth.map_or(false, |d| (d as usize) < v.levels());
                match r {
                    Ok(()) => ensure!(!bad, "accepted", "{}: {} levels were skipped", desc, v.levels()),
                    Err(e) if bad && injected.is_none() => {
                        ensure!(kind_of(&e) == DEPTH_KIND, "other-error", "{}: {:?}", desc, error_parts(&e));
                        refused = true;
                    }
                    Err(e) => err = Some(e),
                }
            }
            RItem::App(want) => {
                let r = match how {
                    How::Boxed => guarded(|| Error::read_application_error_from_in_protocol(&mut boxed))?,
                    _ => guarded(|| Error::read_application_error_from_in_protocol(&mut m))?,
                };
                match r {
                    Ok(g) => ensure!(g == *want, "wrong-value", "{} gave {:?}", desc, g),
                    Err(e) => err = Some(e),
                }
            }
        }
        if let Some(e) = err {
            failed = Some((error_parts(&e), desc));
            break;
        }
    }
    let s = lock(&m.0);
    if let Some(w) = &s.wrong {
        return fail("events", format!("{:?} reads: {}{}", how, w, failed.map(|f| format!(" ({})", f.1)).unwrap_or_default()));
    }
    match (&injected, &failed) {
        (Some((at, e)), Some((f, what))) => {
            // (content that is refused anyway may be refused before the call that fails)
            let own = items.iter().any(|i| matches!(i, RItem::Value(_, _, Err(_)) | RItem::Skip(_, Some(_))));
            ensure!(e == f || (own && s.calls <= *at), "other-error", "{} failed with {:?} where call {} failed with {:?}", what, f, at, e);
            ensure!(s.after.is_none(), "call-after-error", "{}: {} was called after a call had failed", what, s.after.as_ref().unwrap());
        }
        (Some((at, e)), None) => return fail("swallowed", format!("{:?} reads succeeded although call {} {} failed with {:?}", how, at, bounded(&feed[*at], 100).unwrap_or_else(|s| s), e)),
        (None, Some((f, what))) => return fail("read-error", format!("{}: {:?}", what, f)),
        (None, None) => ensure!(refused || s.calls == feed.len(), "events", "{:?} reads made {} of the {} calls the content has", how, s.calls, feed.len()),
    }
    Ok(())
}

pub fn c27(c: &mut Ctx) -> R<()> {
    if c.w.chance(1, 2) {
        reads(c)
    } else {
        writes(c)
    }
}
