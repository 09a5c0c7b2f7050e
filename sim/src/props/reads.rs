use super::writes::{pick_how, program};
use super::Ctx;
use crate::drive::*;
use crate::ensure;
use crate::exec::{fail, R};
use crate::io::*;
use crate::schema::*;
use crate::tape::Tape;
use crate::val::*;
use std::io::{Seek, SeekFrom};

pub fn forms(t: &mut Tape) -> Forms {
    Forms {
        long_field: t.pick(&[0, 0, 2, 8]),
        long_list: t.pick(&[0, 0, 2, 8]),
        shuffle: t.chance(1, 2),
        bool_two: t.chance(1, 4),
        false_zero: t.chance(1, 4),
    }
}
/// Encode in drawn legal forms.
pub fn foreign(t: &mut Tape, v: &Val) -> (Vec<u8>, Vec<Charge>) {
    let f = forms(t);
    let mut e = Enc::new(f, t);
    e.val(v);
    (e.out, e.charges)
}

/// The tree of a value, sometimes with unknown fields in its structs.
pub fn with_unknown(t: &mut Tape, ops: &'static Ops, v: &DynVal) -> Val {
    let mut tree = v.tree();
    if !t.chance(1, 3) {
        return tree;
    }
    let mut count = 0u64;
    for_each_struct(&mut tree, (ops.def)(), &mut |_, d| count += !d.union as u64);
    if count == 0 {
        return tree;
    }
    for _ in 0..t.range(1, 3) {
        let target = t.draw(count);
        let mut g = AnyGen { depth: t.range(1, 5) as u32, budget: t.pick(&[3, 12, 40]), utf8: false };
        let ty = g.ty(t, false);
        let x = g.val(t, ty, 0);
        let mut k = 0;
        for_each_struct(&mut tree, (ops.def)(), &mut |fs, d| {
            if d.union {
                return;
            }
            if k == target {
                let at = t.draw(fs.len() as u64 + 1) as usize;
                fs.insert(at, (t.pick(&[77, -3, 30000, 0, 40]), x.clone()));
            }
            k += 1;
        });
    }
    tree
}

/// Read one value; returns the outcome and the transport.
pub fn read_one(c: &mut Ctx, how: How, ops: &'static Ops, bytes: Vec<u8>, limit: usize, cfg: Cfg) -> R<(Out<DynVal>, SimReader)> {
    let src = SimReader::new(&c.world, 2, bytes, cfg);
    let mut s = ReadSession::new(how, &src, limit);
    let r = s.value(ops)?;
    Ok((r, src))
}

pub fn c03(c: &mut Ctx) -> R<()> {
    let ops = pick_ops(&mut c.w);
    let v = gen_value(&mut c.w, ops, Size::Mixed);
    for how in HOWS {
        // a newer peer may send fields that this version does not know
        let tree = if c.w.chance(1, 4) { with_unknown(&mut c.w, ops, &v) } else { v.tree() };
        let (bytes, _) = foreign(&mut c.w, &tree);
        c.world.note(|| format!("{} {} as {}", ops.name, v.tree().brief(), hex(&bytes)));
        let cfg = Cfg::draw(&c.world).no_eintr();
        let (r, src) = read_one(c, how, ops, bytes.clone(), usize::MAX, cfg)?;
        match r {
            Ok(w) => {
                ensure!(w.same(&*v), "wrong-value", "{:?} read of {} gave {} instead of {} from {}", how, ops.name, w.tree().brief(), v.tree().brief(), hex(&bytes));
                ensure!(src.pos() == bytes.len(), "consumption", "{:?} read of {} consumed {} of {} bytes", how, ops.name, src.pos(), bytes.len());
            }
            Err(k) => return fail("refused", format!("{:?} read of a legal encoding of {} {}: {:?}; stream {}", how, ops.name, v.tree().brief(), k, hex(&bytes))),
        }
    }
    Ok(())
}

/// Damage a stream.
pub fn corrupt(t: &mut Tape, b: &mut Vec<u8>) {
    let n = t.range(1, 3);
    for _ in 0..n {
        if b.is_empty() {
            b.push(t.draw(256) as u8);
            continue;
        }
        let i = t.draw(b.len() as u64) as usize;
        match t.draw(10) {
            0 => b[i] ^= 1 << t.draw(8),
            1 => b[i] = t.pick(&[0, 0xff, 0x80, 0x7f, 1, 2, 0x0c, 0x1c, 0x18, 0x19, 0xf9, 0xfc, 0x1b, 0x0b, 0x15, 0x16]),
            2 => b[i] = t.draw(256) as u8,
            3 => b.truncate(i),
            4 => {
                // a range lost
                let k = t.range(1, 8) as usize;
                let e = (i + k).min(b.len());
                b.drain(i..e);
            }
            5 => {
                // a range repeated
                let k = t.range(1, 16) as usize;
                let e = (i + k).min(b.len());
                let r: Vec<u8> = b[i..e].to_vec();
                b.splice(e..e, r);
            }
            6 => {
                // hostile varint
                let mut x = vec![];
                put_varint(&mut x, t.pick(&[0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 1 << 20, 1 << 24, 0xff_ffff_ffff, u64::MAX]));
                let e = (i + t.draw(3) as usize).min(b.len());
                b.splice(i..e, x);
            }
            7 => {
                // hostile collection header
                let ty = t.draw(16) as u8;
                let mut x = vec![0xf0 | ty];
                put_varint(&mut x, t.pick(&[0xffff_ffff, 0x7fff_ffff, 1 << 16, 1 << 28, 15, 14]));
                let e = (i + t.draw(3) as usize).min(b.len());
                b.splice(i..e, x);
            }
            8 => {
                // two stretches swapped
                let j = t.draw(b.len() as u64) as usize;
                b.swap(i, j);
            }
            _ => {
                // bytes inserted
                let k = t.range(1, 12);
                let x: Vec<u8> = (0..k).map(|_| t.draw(256) as u8).collect();
                b.splice(i..i, x);
            }
        }
    }
}

pub fn c05(c: &mut Ctx) -> R<()> {
    let how = if c.w.chance(1, 3) { How::Boxed } else { How::Sync };
    let mut cfg = Cfg::draw(&c.world);
    cfg.eintr = cfg.eintr.max(1);
    match c.w.draw(4) {
        0 => {
            // write of values
            let ops = pick_ops(&mut c.w);
            let v = gen_value(&mut c.w, ops, Size::Mixed);
            let plain = SimWriter::new(&c.world, 0, Cfg { eintr: 0, ..cfg });
            let a = WriteSession::new(how, &plain).value(&*v)?;
            let noisy = SimWriter::new(&c.world, 1, cfg);
            let b = WriteSession::new(how, &noisy).value(&*v)?;
            ensure!(a == b, "outcome", "{:?} write of {}: {:?} without interruptions, {:?} with {} of them", how, ops.name, a, b, noisy.stats().eintrs);
            ensure!(plain.got() == noisy.got(), "bytes", "{:?} write of {}: {} without interruptions, {} with", how, ops.name, hex(&plain.got()), hex(&noisy.got()));
        }
        1 => {
            // write of elements
            let prog = program(&mut c.w, false);
            let plain = SimWriter::new(&c.world, 0, Cfg { eintr: 0, ..cfg });
            let noisy = SimWriter::new(&c.world, 1, cfg);
            let (mut sa, mut sb) = (WriteSession::new(how, &plain), WriteSession::new(how, &noisy));
            for op in &prog {
                let (a, b) = (sa.elem(op)?, sb.elem(op)?);
                ensure!(a == b, "outcome", "{:?} write of {:?}: {:?} without interruptions, {:?} with", how, op, a, b);
                if a.is_err() {
                    break;
                }
            }
            ensure!(plain.got() == noisy.got(), "bytes", "{:?} element write: {} without interruptions, {} with", how, hex(&plain.got()), hex(&noisy.got()));
        }
        2 => {
            let ops = pick_ops(&mut c.w);
            let v = gen_value(&mut c.w, ops, Size::Medium);
            let tree = with_unknown(&mut c.w, ops, &v);
            let (mut bytes, _) = foreign(&mut c.w, &tree);
            if c.w.chance(1, 3) {
                corrupt(&mut c.w, &mut bytes);
            }
            let limit = if c.w.chance(1, 4) { c.w.draw(200) as usize } else { 1 << 24 };
            let (a, ra) = read_one(c, how, ops, bytes.clone(), limit, Cfg { eintr: 0, ..cfg })?;
            let (b, rb) = read_one(c, how, ops, bytes.clone(), limit, cfg)?;
            same_outcome(&a, &b, ops, "without interruptions", "with interruptions", &bytes)?;
            ensure!(ra.pos() == rb.pos(), "position", "{:?} read of {}: at {} without interruptions, {} with", how, ops.name, ra.pos(), rb.pos());
        }
        _ => {
            let prog = program(&mut c.w, false);
            let mut bytes = elem_bytes(&prog);
            if c.w.chance(1, 4) {
                corrupt(&mut c.w, &mut bytes);
            }
            let ra = SimReader::new(&c.world, 2, bytes.clone(), Cfg { eintr: 0, ..cfg });
            let rb = SimReader::new(&c.world, 3, bytes.clone(), cfg);
            let (mut sa, mut sb) = (ReadSession::new(how, &ra, 1 << 24), ReadSession::new(how, &rb, 1 << 24));
            for op in &prog {
                let (a, b) = (sa.elem(op)?, sb.elem(op)?);
                ensure!(a == b, "outcome", "{:?} read of {:?}: {:?} without interruptions, {:?} with", how, op, a, b);
                if a.is_err() {
                    break;
                }
            }
            ensure!(ra.pos() == rb.pos(), "position", "{:?} element read: at {} without interruptions, {} with", how, ra.pos(), rb.pos());
        }
    }
    Ok(())
}

pub fn same_outcome(a: &Out<DynVal>, b: &Out<DynVal>, ops: &Ops, na: &str, nb: &str, bytes: &[u8]) -> R<()> {
    let same = match (a, b) {
        (Ok(x), Ok(y)) => x.same(&**y),
        (Err(x), Err(y)) => x == y,
        _ => false,
    };
    let sh = |r: &Out<DynVal>| show(r, |v| v.tree().brief());
    ensure!(same, "outcome", "read of {}: {} {}; {} {}; stream {}", ops.name, na, sh(a), nb, sh(b), hex(bytes));
    Ok(())
}

/// Independent encoding of an element program.
pub fn elem_bytes(prog: &[El]) -> Vec<u8> {
    let mut e = vec![];
    let mut last: Vec<i32> = vec![];
    let mut pending: Option<i16> = None;
    let header = |e: &mut Vec<u8>, last: &mut i32, id: i16, code: u8| {
        let d = id as i32 - *last;
        if (1..=15).contains(&d) {
            e.push(((d as u8) << 4) | code);
        } else {
            e.push(code);
            e.extend(encode(&Val::I16(id)));
        }
        *last = id as i32;
    };
    for op in prog {
        match op {
            El::MsgBegin(n, t, s) => e.extend(message_header(n, *t, *s)),
            El::StructBegin => last.push(0),
            El::StructEnd => {
                last.pop();
            }
            El::FieldBegin(id, T_BOOL) => pending = Some(*id),
            El::FieldBegin(id, t) => header(&mut e, last.last_mut().unwrap(), *id, *t),
            El::FieldStop => e.push(0),
            El::Bool(b) => match pending.take() {
                Some(id) => header(&mut e, last.last_mut().unwrap(), id, if *b { 1 } else { 2 }),
                None => e.push(if *b { 1 } else { 2 }),
            },
            El::I8(x) => e.push(*x as u8),
            El::I16(x) => e.extend(encode(&Val::I16(*x))),
            El::I32(x) => e.extend(encode(&Val::I32(*x))),
            El::I64(x) => e.extend(encode(&Val::I64(*x))),
            El::Double(x) => e.extend(encode(&Val::Double(*x))),
            El::Bytes(x) => e.extend(encode(&Val::Bytes(x.clone()))),
            El::Str(x) => e.extend(encode(&Val::Bytes(x.clone().into_bytes()))),
            El::ListBegin(t, n) | El::SetBegin(t, n) => {
                if *n < 15 {
                    e.push(((*n as u8) << 4) | t);
                } else {
                    e.push(0xf0 | t);
                    put_varint(&mut e, *n as u64);
                }
            }
            El::MapBegin(k, v, n) => {
                put_varint(&mut e, *n as u64);
                if *n > 0 {
                    e.push((k << 4) | v);
                }
            }
            El::Byte(b) => e.push(*b),
            El::MsgEnd | El::FieldEnd | El::ListEnd | El::SetEnd | El::MapEnd => {}
        }
    }
    e
}

/// Long contents, that take many transport calls, at the end of what is read: the stream tears or fails within them.
fn long_tail(t: &mut Tape) -> Vec<El> {
    let n = if t.chance(1, 8) { t.range(16_000, 140_000) } else { t.range(500, 12_000) } as usize;
    let fill = t.range(97, 122) as u8;
    let last = if t.chance(1, 2) { El::Bytes(vec![fill; n]) } else { El::Str(String::from_utf8(vec![fill; n]).unwrap()) };
    let mut prog = vec![];
    for _ in 0..t.draw(3) {
        prog.push(match t.draw(3) {
            0 => El::I32(t.draw(1 << 20) as i32),
            1 => El::Bytes(vec![1; t.draw(9) as usize]),
            _ => El::Byte(7),
        });
    }
    prog.push(last);
    prog
}

/// A place in a stream of so many bytes, more often than not near its end or a round number.
fn spot(w: &World, n: usize) -> usize {
    let n = n as u64;
    let at = match w.draw(5) {
        0 => n - 1 - w.draw(8.min(n)),
        1 => n - 1 - w.draw(40.min(n)),
        2 => (w.draw(n) + 1) / 1024 * 1024 + w.draw(3),
        _ => w.draw(n),
    };
    at.min(n - 1) as usize
}

/// An item that is skipped, or a list of scalars.
fn whole(t: &mut Tape) -> (Item, Vec<u8>) {
    let k = t.range(3, 4) as usize;
    let (i, b, _) = Item::of(t, Size::Small, k);
    (i, b)
}

pub fn c07(c: &mut Ctx) -> R<()> {
    if c.w.chance(1, 8) {
        // skipped as a whole, or read as one list
        let (item, bytes) = whole(&mut c.w);
        for _ in 0..12 {
            let cut = c.world.draw(bytes.len() as u64) as usize;
            let how = pick_how(&mut c.w);
            let src = SimReader::new(&c.world, 2, bytes[..cut].to_vec(), Cfg::draw(&c.world));
            c.world.fault("torn_stream");
            let mut s = ReadSession::new(how, &src, usize::MAX);
            let r = item.run(&mut s)?;
            if r.is_err() && c.world.chance(1, 4) {
                again(&c.world, how, &mut s, ops_by_name("Statistics"))?;
            }
            ensure!(r != Ok(()), "value-from-torn", "{:?}: {} succeeded with {} of {} bytes {}", how, item.name(), cut, bytes.len(), hex(&bytes));
            ensure!(r == Err(EOF_KIND), "wrong-kind", "{:?}: {} from {} of {} bytes: {:?} instead of end of file; {}", how, item.name(), cut, bytes.len(), r, hex(&bytes));
        }
        return Ok(());
    }
    if c.w.chance(2, 3) {
        let ops = pick_ops(&mut c.w);
        let v = gen_value(&mut c.w, ops, Size::Medium);
        let tree = with_unknown(&mut c.w, ops, &v);
        let (bytes, _) = foreign(&mut c.w, &tree);
        let cuts: Vec<usize> = if bytes.len() <= 48 {
            (0..bytes.len()).collect()
        } else {
            (0..14)
                .map(|_| match c.world.draw(4) {
                    0 => bytes.len() - 1 - c.world.draw(8) as usize,
                    1 => c.world.draw(12) as usize,
                    _ => c.world.draw(bytes.len() as u64) as usize,
                })
                .collect()
        };
        for cut in cuts {
            let how = pick_how(&mut c.w);
            let cfg = Cfg::draw(&c.world);
            let src = SimReader::new(&c.world, 2, bytes[..cut].to_vec(), cfg);
            let mut s = ReadSession::new(how, &src, usize::MAX);
            let r = s.value(ops)?;
            c.world.fault("torn_stream");
            if r.is_err() && c.world.chance(1, 4) {
                again(&c.world, how, &mut s, ops)?;
            }
            match r {
                Ok(w) => return fail("value-from-torn", format!("{:?} read of {} from {} of {} bytes returned {}: {}", how, ops.name, cut, bytes.len(), w.tree().brief(), hex(&bytes[..cut]))),
                Err(k) => ensure!(k == EOF_KIND, "wrong-kind", "{:?} read of {} from {} of {} bytes: {:?} instead of end of file; {}", how, ops.name, cut, bytes.len(), k, hex(&bytes[..cut])),
            }
        }
    } else {
        let long = c.w.chance(1, 60);
        let prog = if long { long_tail(&mut c.w) } else { program(&mut c.w, true) };
        let bytes = elem_bytes(&prog);
        if bytes.is_empty() {
            return Ok(());
        }
        for _ in 0..if long { 5 } else { 12 } {
            let cut = if long { spot(&c.world, bytes.len()) } else { c.world.draw(bytes.len() as u64) as usize };
            let how = pick_how(&mut c.w);
            let src = SimReader::new(&c.world, 2, bytes[..cut].to_vec(), Cfg::draw(&c.world));
            c.world.fault("torn_stream");
            let mut s = ReadSession::new(how, &src, usize::MAX);
            let mut ended = false;
            for op in &prog {
                match s.elem(op)? {
                    Ok(g) => ensure!(g == op.expect(), "wrong-element", "{:?} read of {:?} from a stream torn at {} gave {:?}", how, op, cut, g),
                    Err(k) => {
                        ensure!(k == EOF_KIND, "wrong-kind", "{:?} read of {:?} from a stream torn at {}: {:?} instead of end of file", how, op, cut, k);
                        ended = true;
                        break;
                    }
                }
            }
            if ended && c.world.chance(1, 4) {
                again(&c.world, how, &mut s, ops_by_name("Statistics"))?;
            }
            ensure!(ended, "value-from-torn", "{:?}: every element was read from {} of {} bytes: {:?}", how, cut, bytes.len(), prog);
        }
    }
    Ok(())
}

/// A reader that failed should not be used again (documented); if it is all the same, nothing is
/// made up while the transport has nothing to give.
fn again(w: &World, how: How, s: &mut ReadSession, ops: &'static Ops) -> R<()> {
    let (what, r) = match w.draw(8) {
        0 => ("a byte", s.elem(&El::Byte(0))?.map(|_| ())),
        1 => ("an i64", s.elem(&El::I64(0))?.map(|_| ())),
        2 => ("a string", s.elem(&El::Str(String::new()))?.map(|_| ())),
        3 => ("a double", s.elem(&El::Double(0))?.map(|_| ())),
        4 => ("a list header", s.elem(&El::ListBegin(T_STRUCT, 1))?.map(|_| ())),
        5 => ("a message header", s.elem(&El::MsgBegin(String::new(), 1, 0))?.map(|_| ())),
        6 => ("another value", s.value(ops_by_name("Statistics"))?.map(|_| ())),
        _ => (ops.name, s.value(ops)?.map(|_| ())),
    };
    ensure!(r.is_err(), "value-from-failure", "{:?}: after a failed read, {} was read from a transport that has nothing to give", how, what);
    Ok(())
}

pub fn c08(c: &mut Ctx) -> R<()> {
    let by_value = c.w.chance(3, 4);
    let item = if !by_value && c.w.chance(1, 3) { Some(whole(&mut c.w)) } else { None };
    let ops = pick_ops(&mut c.w);
    let v = gen_value(&mut c.w, ops, Size::Mixed);
    let (prog, bytes) = if by_value {
        let tree = with_unknown(&mut c.w, ops, &v);
        (vec![], foreign(&mut c.w, &tree).0)
    } else if let Some((_, b)) = &item {
        (vec![], b.clone())
    } else {
        let p = if c.w.chance(1, 40) { long_tail(&mut c.w) } else { program(&mut c.w, true) };
        let b = elem_bytes(&p);
        (p, b)
    };
    if bytes.is_empty() {
        return Ok(());
    }
    for _ in 0..4 {
        let how = pick_how(&mut c.w);
        let at = match c.world.draw(4) {
            0 => bytes.len() - 1,
            1 => spot(&c.world, bytes.len()),
            _ => c.world.draw(bytes.len() as u64) as usize,
        };
        let kind = c.world.kind(how != How::Async);
        let sticky = c.world.chance(1, 2);
        let want = category(kind);
        // further bytes exist, so that going on after the failure would yield something
        let src = SimReader::new(&c.world, 2, bytes.clone(), Cfg::draw(&c.world)).fail_at(at, kind, sticky);
        let mut s = ReadSession::new(how, &src, usize::MAX);
        let got: Out<String> = if by_value {
            s.value(ops)?.map(|v| v.tree().brief())
        } else if let Some((i, _)) = &item {
            i.run(&mut s)?.map(|_| i.name())
        } else {
            let mut r = Ok("every element".to_string());
            for op in &prog {
                if let Err(k) = s.elem(op)? {
                    r = Err(k);
                    break;
                }
            }
            r
        };
        let st = src.stats();
        let what = match &item {
            _ if by_value => ops.name.to_string(),
            Some((i, _)) => i.name(),
            _ => "elements".into(),
        };
        match got {
            Ok(x) => return fail("value-from-failure", format!("{:?} read of {} returned {} although the transport failed with {:?} at byte {}", how, what, x, kind, at)),
            Err(k) => ensure!(k == want, "wrong-kind", "{:?} read of {}: {:?} at byte {} reported as {:?}, expected {:?}", how, what, kind, at, k, want),
        }
        ensure!(st.after_fail == 0, "touched-after-failure", "{:?} read of {}: {} transport calls after the failure ({:?} at byte {})", how, what, st.after_fail, kind, at);
        if sticky && c.world.chance(1, 2) {
            again(&c.world, how, &mut s, if by_value { ops } else { ops_by_name("Statistics") })?;
        }
    }
    Ok(())
}

pub fn c12(c: &mut Ctx) -> R<()> {
    let ops = pick_ops(&mut c.w);
    let v = gen_value(&mut c.w, ops, Size::Mixed);
    let tree = with_unknown(&mut c.w, ops, &v);
    let (mut bytes, charges) = foreign(&mut c.w, &tree);
    let limit = if c.w.chance(1, 4) {
        let total: u64 = charges.iter().map(|x| x.amount).sum();
        c.w.draw(total + 10) as usize
    } else {
        1 << 22
    };
    let rounds = if bytes.len() > 3000 { 3 } else { 6 };
    for i in 0..rounds {
        let mut b = bytes.clone();
        if i == 1 {
            b = super::hostile::field_soup(&mut c.w, ops);
        } else if i == 2 {
            b = if c.w.chance(1, 2) {
                super::hostile::hostile(c, ops)
            } else {
                // unknown content, also nested about as deep as it may be
                let v = gen_value(&mut c.w, ops, Size::Small);
                let mut tree = v.tree();
                let x = if c.w.chance(2, 3) { let n = c.w.range(62, 67) as usize; chain(&mut c.w, n) } else { unknown_content(&mut c.w) };
                if let Val::Struct(fs) = &mut tree {
                    let at = c.w.draw(fs.len() as u64 + 1) as usize;
                    fs.insert(at, (200, x));
                }
                foreign(&mut c.w, &tree).0
            };
            c.world.fault("hostile_stream");
        } else if i > 2 {
            corrupt(&mut c.w, &mut b);
            c.world.fault("corruption");
        } else {
            // payload after the value
            b.extend_from_slice(&[0xff, 0x15, 0x00]);
            bytes = b.clone();
        }
        let (a, ra) = read_one(c, How::Sync, ops, b.clone(), limit, Cfg::PLAIN)?;
        for how in [How::Async, How::Boxed, How::Sync] {
            let cfg = Cfg::draw(&c.world).no_eintr();
            let (x, rx) = read_one(c, how, ops, b.clone(), limit, cfg)?;
            same_outcome(&a, &x, ops, "blocking reader", &format!("{:?} reader under {:?}", how, cfg), &b)?;
            ensure!(ra.pos() == rx.pos(), "position", "read of {} (limit {}): blocking reader at {}, {:?} reader under {:?} at {}; stream {}", ops.name, limit, ra.pos(), how, cfg, rx.pos(), hex(&b));
        }
        if a.is_err() {
            c.world.probe("agree_on_error");
        }
        if c.world.chance(1, 3) {
            // what is read next is the same as well
            let (ra, rb) = (SimReader::new(&c.world, 2, b.clone(), Cfg::PLAIN), SimReader::new(&c.world, 3, b.clone(), Cfg::draw(&c.world).no_eintr()));
            let how = [How::Async, How::Async, How::Boxed][c.world.draw(3) as usize];
            let (mut sa, mut sb) = (ReadSession::new(How::Sync, &ra, limit), ReadSession::new(how, &rb, limit));
            let (x, y) = (sa.value(ops)?, sb.value(ops)?);
            if x.is_err() || y.is_err() {
                continue;
            }
            onwards(&c.world, how, (&mut sa, &ra), (&mut sb, &rb), ops, &b)?;
        }
    }
    // element level
    let prog = program(&mut c.w, false);
    let mut b = elem_bytes(&prog);
    corrupt(&mut c.w, &mut b);
    let limit = if c.w.chance(1, 3) { c.w.draw(200) as usize } else { 1 << 20 };
    let ra = SimReader::new(&c.world, 2, b.clone(), Cfg::draw(&c.world).no_eintr());
    let rb = SimReader::new(&c.world, 3, b.clone(), Cfg::draw(&c.world).no_eintr());
    let (mut sa, mut sb) = (ReadSession::new(How::Sync, &ra, limit), ReadSession::new(How::Async, &rb, limit));
    for op in &prog {
        let (x, y) = (sa.elem(op)?, sb.elem(op)?);
        ensure!(x == y, "outcome", "read of {:?}: blocking {:?}, asynchronous {:?}; stream {}", op, x, y, hex(&b));
        ensure!(ra.pos() == rb.pos(), "position", "read of {:?}: blocking at {}, asynchronous at {}; stream {}", op, ra.pos(), rb.pos(), hex(&b));
        if x.is_err() {
            return Ok(());
        }
    }
    onwards(&c.world, How::Async, (&mut sa, &ra), (&mut sb, &rb), ops, &b)
}

/// Two readers at the same place of the same stream go on alike.
fn onwards(w: &World, how: How, (sa, ra): (&mut ReadSession, &SimReader), (sb, rb): (&mut ReadSession, &SimReader), ops: &'static Ops, b: &[u8]) -> R<()> {
    for _ in 0..w.draw(5) {
        let k = w.draw(14);
        let el = match k {
            0 => El::Byte(0),
            1 => El::Bool(true),
            2 => El::I8(0),
            3 => El::I16(0),
            4 => El::I32(0),
            5 => El::I64(0),
            6 => El::Double(0),
            7 => El::Bytes(vec![]),
            8 => El::Str(String::new()),
            9 => El::ListBegin(T_STRUCT, 1),
            10 => El::MapBegin(T_I32, T_I32, 1),
            11 => El::FieldBegin(1, T_I32),
            12 => El::MsgBegin(String::new(), 1, 0),
            _ => El::StructBegin,
        };
        if k == 13 && w.chance(1, 2) {
            let (x, y) = (sa.value(ops)?, sb.value(ops)?);
            same_outcome(&x, &y, ops, "blocking reader, going on,", &format!("{:?} reader, going on,", how), b)?;
            if x.is_err() {
                break;
            }
        } else {
            let (x, y) = (sa.elem(&el)?, sb.elem(&el)?);
            ensure!(x == y, "outcome", "going on with {:?}: blocking {:?}, {:?} {:?}; stream {}", el, x, how, y, hex(b));
            if x.is_err() {
                break;
            }
        }
        ensure!(ra.pos() == rb.pos(), "position", "going on with {:?}: blocking at {}, {:?} at {}; stream {}", el, ra.pos(), how, rb.pos(), hex(b));
    }
    Ok(())
}

/// What is read from a stream at one place.
enum Item {
    Value(&'static Ops, DynVal),
    /// a message around a value
    Message(String, u8, u32, &'static Ops, DynVal),
    Elems(Vec<El>),
    Skip(Val),
    List(ListOf, Vec<Val>),
}

impl Item {
    /// The item, its bytes, and what reading it charges.
    fn gen(t: &mut Tape, size: Size) -> (Item, Vec<u8>, u64) {
        let kind = t.weighted(&[8, 3, 2, 2, 1]);
        Item::of(t, size, kind)
    }
    fn of(t: &mut Tape, size: Size, kind: usize) -> (Item, Vec<u8>, u64) {
        let sum = |c: &[Charge]| c.iter().map(|x| x.amount).sum::<u64>();
        match kind {
            0 => {
                let ops = pick_ops(t);
                let v = gen_value(t, ops, size);
                let tree = with_unknown(t, ops, &v);
                let (b, ch) = foreign(t, &tree);
                (Item::Value(ops, v), b, sum(&ch))
            }
            1 => {
                let ops = pick_ops(t);
                let v = gen_value(t, ops, Size::Small);
                let name = Gen::new(t, 60, false).string();
                let (ty, seq) = (t.range(1, 4) as u8, t.raw() as u32 >> t.draw(32));
                let mut b = message_header(&name, ty, seq);
                let (x, ch) = foreign(t, &v.tree());
                b.extend(x);
                let n = name.len() as u64 + sum(&ch);
                (Item::Message(name, ty, seq, ops, v), b, n)
            }
            2 => {
                let prog = program(t, true);
                let b = elem_bytes(&prog);
                let n = prog.iter().map(El::charge).sum();
                (Item::Elems(prog), b, n)
            }
            3 => {
                let mut g = AnyGen { depth: t.range(1, 5) as u32, budget: t.pick(&[3, 12, 40]), utf8: false };
                let ty = g.ty(t, false);
                let v = g.val(t, ty, 0);
                let (b, ch) = foreign(t, &v);
                (Item::Skip(v), b, sum(&ch))
            }
            _ => {
                let e = t.pick(&[ListOf::Bool, ListOf::Byte, ListOf::I64, ListOf::Str, ListOf::Bin]);
                let xs: Vec<Val> = (0..t.draw(20))
                    .map(|_| match e {
                        ListOf::Bool => Val::Bool(t.chance(1, 2)),
                        ListOf::Byte => Val::I8(t.draw(256) as i8),
                        ListOf::I64 => Val::I64(t.raw() as i64 >> t.draw(64)),
                        ListOf::Str => Val::Bytes(Gen::new(t, 30, false).string().into_bytes()),
                        ListOf::Bin => Val::Bytes((0..t.draw(30)).map(|_| t.draw(256) as u8).collect()),
                    })
                    .collect();
                let ty = match e {
                    ListOf::Bool => T_BOOL,
                    ListOf::Byte => T_I8,
                    ListOf::I64 => T_I64,
                    _ => T_BYTES,
                };
                let (b, ch) = foreign(t, &Val::List(ty, xs.clone()));
                (Item::List(e, xs), b, sum(&ch))
            }
        }
    }
    fn name(&self) -> String {
        match self {
            Item::Value(ops, _) => ops.name.into(),
            Item::Message(n, ..) => format!("message {:?}", n),
            Item::Elems(p) => format!("elements {:?}", p),
            Item::Skip(v) => format!("skipped {}", v.brief()),
            Item::List(e, v) => format!("list of {} {:?}", v.len(), e),
        }
    }
    /// Skip it or read it as a list, whatever comes of it.
    fn run(&self, s: &mut ReadSession) -> R<Out<()>> {
        match self {
            Item::Skip(v) => s.skip(ttype(v.ty()), None),
            Item::List(e, _) => Ok(s.list(*e)?.map(|_| ())),
            _ => unreachable!(),
        }
    }
    /// Read it and compare.
    fn read(&self, s: &mut ReadSession) -> R<()> {
        let refused = |what: &str, k: Kind| fail("refused", format!("read of {}: {:?}", what, k));
        match self {
            Item::Value(ops, v) => match s.value(ops)? {
                Ok(w) => ensure!(w.same(&**v), "wrong-value", "read of {} gave {} instead of {}", ops.name, w.tree().brief(), v.tree().brief()),
                Err(k) => return refused(ops.name, k),
            },
            Item::Message(n, ty, seq, ops, v) => {
                match s.elem(&El::MsgBegin(String::new(), 1, 0))? {
                    Ok(g) => ensure!(g == Got::Msg(n.clone(), *ty, *seq), "wrong-value", "read of a message {:?} {} {} gave {:?}", n, ty, seq, g),
                    Err(k) => return refused("a message", k),
                }
                match s.value(ops)? {
                    Ok(w) => ensure!(w.same(&**v), "wrong-value", "read of {} in a message gave {} instead of {}", ops.name, w.tree().brief(), v.tree().brief()),
                    Err(k) => return refused(ops.name, k),
                }
                let r = s.elem(&El::MsgEnd)?;
                ensure!(r.is_ok(), "refused", "end of a message: {:?}", r);
            }
            Item::Elems(prog) => {
                for op in prog {
                    match s.elem(op)? {
                        Ok(g) => ensure!(g == op.expect(), "wrong-value", "read of {:?} gave {:?}", op, g),
                        Err(k) => return refused(&format!("{:?}", op), k),
                    }
                }
            }
            Item::Skip(v) => {
                let r = s.skip(ttype(v.ty()), None)?;
                ensure!(r.is_ok(), "refused", "skip of {}: {:?}", v.brief(), r);
            }
            Item::List(e, xs) => match s.list(*e)? {
                Ok(ys) => ensure!(ys == *xs, "wrong-value", "read of a list {:?} gave {:?}", xs, ys),
                Err(k) => return refused("a list", k),
            },
        }
        Ok(())
    }
}

/// A known field whose header announces a boolean. Readers go by the id: they may read it as what
/// it should be. If they do, the values that follow are none the worse.
fn misfit(c: &mut Ctx) -> R<()> {
    let mut stream = vec![];
    let (first, at): (&str, usize) = match c.w.draw(3) {
        0 => {
            // offset, size, first row
            stream.extend_from_slice(&[0x16, 2, 0x15, 4, 0x16, 6, 0]);
            ("PageLocation", c.w.pick(&[0usize, 2, 4]))
        }
        1 => {
            stream.extend_from_slice(&[0x18, 1, 7, 0x18, 0, 0x16, 3, 0]);
            ("Statistics", c.w.pick(&[0usize, 3, 5]))
        }
        _ => {
            stream.extend_from_slice(&[0x18, 1, b'k', 0x18, 1, b'v', 0]);
            ("KeyValue", c.w.pick(&[0usize, 3]))
        }
    };
    stream[at] = (stream[at] & 0xf0) | c.w.range(1, 2) as u8;
    let end = stream.len();
    let ops = if c.w.chance(1, 2) { ops_by_name("ColumnIndex") } else { pick_ops(&mut c.w) };
    let v = gen_value(&mut c.w, ops, Size::Small);
    let (b, _) = foreign(&mut c.w, &v.tree());
    stream.extend(b);
    let how = pick_how(&mut c.w);
    let src = SimReader::new(&c.world, 2, stream.clone(), Cfg::draw(&c.world).no_eintr());
    let mut s = ReadSession::new(how, &src, usize::MAX);
    if s.value(ops_by_name(first))?.is_err() || src.pos() != end {
        return Ok(());
    }
    match s.value(ops)? {
        Ok(w) => ensure!(w.same(&*v), "wrong-value", "{:?} read of {} after a {} with a field of another type: {} instead of {}; stream {}", how, ops.name, first, w.tree().brief(), v.tree().brief(), hex(&stream)),
        Err(k) => return fail("refused", format!("{:?} read of {} after a {} with a field of another type: {:?}; stream {}", how, ops.name, first, k, hex(&stream))),
    }
    ensure!(src.pos() == stream.len(), "consumption", "{:?} read of {} after a {} with a field of another type left the transport at {} of {}", how, ops.name, first, src.pos(), stream.len());
    Ok(())
}

fn seek_only(c: &mut Ctx, stream: &[u8]) -> R<()> {
    let src = SimReader::new(&c.world, 2, stream.to_vec(), Cfg::PLAIN);
    let mut s = ReadSession::new(How::Sync, &src, usize::MAX);
    for _ in 0..c.w.range(1, 6) {
        let here = src.pos() as i64;
        let d = c.w.draw(5) as i64 - 2;
        let (to, want) = match c.w.draw(3) {
            0 => (SeekFrom::Start(d.unsigned_abs()), d.abs()),
            1 => (SeekFrom::Current(d), here + d),
            _ => (SeekFrom::End(d), stream.len() as i64 + d),
        };
        if let In::Sync(p) = &mut s.p {
            match crate::exec::guarded(|| p.seek(to))? {
                Ok(x) => ensure!(want >= 0 && x as i64 == want && src.pos() as i64 == want, "seek", "seek {:?} from {} of {} bytes reported {} and left the transport at {}", to, here, stream.len(), x, src.pos()),
                Err(e) => ensure!(want < 0 && e.kind() == std::io::ErrorKind::InvalidInput && src.pos() as i64 == here, "seek", "seek {:?} from {} of {} bytes failed with {:?} at {}", to, here, stream.len(), e.kind(), src.pos()),
            }
        }
    }
    Ok(())
}

pub fn c13(c: &mut Ctx) -> R<()> {
    let n = c.w.range(1, 5) as usize;
    let mut stream = vec![];
    let mut items: Vec<(Item, usize, usize)> = vec![];
    let mut costs = vec![];
    for i in 0..n {
        let (item, b, n) = Item::gen(&mut c.w, if i == 0 { Size::Mixed } else { Size::Small });
        costs.push(n);
        let a = stream.len();
        stream.extend(b);
        items.push((item, a, stream.len()));
    }
    if c.w.chance(1, 20) {
        return misfit(c);
    }
    if c.w.chance(1, 60) {
        // nothing at all, or next to nothing, to seek in
        stream.truncate(c.w.draw(2) as usize);
        return seek_only(c, &stream);
    }
    let payload: Vec<u8> = (0..c.w.draw(24)).map(|_| c.w.draw(256) as u8).collect();
    stream.extend_from_slice(&payload);
    let how = pick_how(&mut c.w);
    let seeks = how == How::Sync && c.w.chance(1, 2);
    let fresh = c.w.chance(1, 2);
    let src = SimReader::new(&c.world, 2, stream.clone(), Cfg::draw(&c.world).no_eintr());
    let rounds = if seeks { n + 3 } else { n };
    let order: Vec<usize> = (0..rounds).map(|k| if seeks { c.w.draw(n as u64) as usize } else { k }).collect();
    // a limit that the whole history uses up exactly, or none
    // between seeks, something may also be read from where it does not begin, with whatever outcome
    // (the protocol itself keeps the value of a boolean field whose header alone was read)
    let wild = seeks && items.iter().all(|(i, ..)| matches!(i, Item::Value(..) | Item::Message(..))) && c.w.chance(1, 2);
    let limit = if fresh || wild || c.w.chance(1, 2) { usize::MAX } else { order.iter().map(|i| costs[*i]).sum::<u64>() as usize };
    let mut s = ReadSession::new(how, &src, limit);
    for k in 0..=rounds {
        if k == rounds && !seeks {
            break;
        }
        let mut i = k;
        if wild && c.w.chance(1, 2) {
            if let In::Sync(p) = &mut s.p {
                let to = SeekFrom::Start(c.w.draw(stream.len() as u64 + 1));
                let _ = crate::exec::guarded(|| p.seek(to))?;
            }
            let r = s.value(pick_ops(&mut c.w))?;
            c.world.probe(if r.is_ok() { "wild_value" } else { "wild_error" });
            if r.is_err() {
                // a reader that failed is not to be used again
                s = ReadSession::new(how, &src, usize::MAX);
            }
            c.world.fault("corruption");
        }
        if seeks {
            if let In::Sync(p) = &mut s.p {
                for _ in 0..c.w.draw(3) {
                    // a seek that only moves
                    let here = src.pos() as i64;
                    let (to, expect) = match c.w.draw(6) {
                        0 => (SeekFrom::Start(c.w.draw(stream.len() as u64 + 40)), None),
                        1 => (SeekFrom::Current(c.w.draw(60) as i64 - 30), None),
                        2 => (SeekFrom::End(c.w.draw(44) as i64 - 40), None),
                        3 => (SeekFrom::Current(-here - 1 - c.w.draw(5) as i64), Some(std::io::ErrorKind::InvalidInput)),
                        4 => {
                            let kind = c.world.kind(true);
                            src.get().seek_err = Some(kind);
                            c.world.fault("seek_error");
                            (SeekFrom::Start(0), Some(kind))
                        }
                        _ => (SeekFrom::Current(0), None),
                    };
                    let want = match to {
                        SeekFrom::Start(x) => x as i64,
                        SeekFrom::Current(d) => here + d,
                        SeekFrom::End(d) => stream.len() as i64 + d,
                    };
                    let expect = if want < 0 && expect.is_none() { Some(std::io::ErrorKind::InvalidInput) } else { expect };
                    let r = crate::exec::guarded(|| p.seek(to))?;
                    match (r, expect) {
                        (Ok(x), None) => ensure!(x as i64 == want && src.pos() as i64 == want, "seek", "seek {:?} from {} reported {} and left the transport at {}, expected {}", to, here, x, src.pos(), want),
                        (Err(e), Some(k)) => {
                            ensure!(e.kind() == k, "seek", "failed seek {:?} reported as {:?}, expected {:?}", to, e.kind(), k);
                            ensure!(src.pos() as i64 == here, "seek", "failed seek {:?} moved the transport", to);
                        }
                        (r, e) => return fail("seek", format!("seek {:?} from {} gave {:?}, expected error {:?} / position {}", to, here, r, e, want)),
                    }
                }
                i = order.get(k).copied().unwrap_or(0);
                let a = items[i].1 as u64;
                let here = src.pos() as i64;
                let to = match c.w.draw(3) {
                    0 => SeekFrom::Start(a),
                    1 => SeekFrom::Current(a as i64 - here),
                    _ => SeekFrom::End(a as i64 - stream.len() as i64),
                };
                match crate::exec::guarded(|| p.seek(to))? {
                    Ok(x) => ensure!(x == a && src.pos() as u64 == a, "seek", "seek {:?} reported {}, transport at {}, expected {}", to, x, src.pos(), a),
                    Err(e) => return fail("seek", format!("seek {:?} failed: {:?}", to, e.kind())),
                }
            }
        }
        if k == rounds {
            break;
        }
        let (item, a, b) = &items[i];
        ensure!(src.pos() == *a, "position", "before item {} the transport is at {}, expected {}", i, src.pos(), a);
        if let Err(mut v) = item.read(&mut s) {
            v.msg = format!("{:?}, item {} at {}..{}: {}", how, i, a, b, v.msg);
            return Err(v);
        }
        ensure!(src.pos() == *b, "consumption", "{:?} read of item {} ({}) left the transport at {}, its encoding is {}..{}", how, i, item.name(), src.pos(), a, b);
        if fresh {
            s = ReadSession::new(how, &src, usize::MAX);
        }
    }
    if !seeks {
        drop(s);
        let at = src.pos();
        ensure!(stream[at..] == payload[..], "payload", "the payload does not follow the values: position {} of {}", at, stream.len());
    }
    Ok(())
}

/// A chain of containers exactly `levels` deep: of all kinds, or of one kind throughout.
pub fn chain(t: &mut Tape, levels: usize) -> Val {
    let kind = t.pick(&[5, 5, 5, 0, 1, 2, 3, 4]);
    link(t, levels, kind)
}
fn link(t: &mut Tape, levels: usize, kind: u64) -> Val {
    if levels <= 1 {
        return match t.draw(5) {
            0 => Val::Struct(vec![]),
            1 => Val::Bool(true),
            2 => Val::I64(7),
            3 => Val::Bytes(vec![b'z'; 3]),
            _ => Val::List(T_I32, vec![]),
        };
    }
    let inner = link(t, levels - 1, kind);
    match if kind == 5 { t.draw(5) } else { kind } {
        0 => {
            let id = if t.chance(1, 8) { t.range(32_740, 32_767) } else { t.range(1, 40) } as i16;
            let mut fs = vec![(id, inner)];
            // and something behind it
            if t.chance(1, 3) {
                let next = (id as i32 + t.range(1, 15) as i32).min(32_767) as i16;
                fs.push((next, Val::Bool(t.chance(1, 2))));
            }
            Val::Struct(fs)
        }
        1 => Val::List(inner.ty(), vec![inner]),
        2 => Val::Set(inner.ty(), vec![inner]),
        3 => Val::Map(T_I8, inner.ty(), vec![(Val::I8(1), inner)]),
        _ => Val::Map(inner.ty(), T_BOOL, vec![(inner, Val::Bool(false))]),
    }
}

pub const MAX_LEVELS: usize = 64;

pub fn unknown_content(t: &mut Tape) -> Val {
    match t.weighted(&[5, 2, 1]) {
        0 => {
            let mut g = AnyGen { depth: t.range(1, 6) as u32, budget: t.pick(&[4, 20, 80]), utf8: false };
            let ty = g.ty(t, false);
            g.val(t, ty, 0)
        }
        1 => {
            let n = t.pick(&[1, 2, 10, 62, 63, 64, 65, 66, 70, 100]);
            chain(t, n)
        }
        _ => {
            // wide and deep: siblings of different depth
            let (a, b) = (t.range(1, 64) as usize, t.range(1, 63) as usize);
            Val::Struct(vec![(1, chain(t, a)), (2, chain(t, b)), (3, Val::Bool(true))])
        }
    }
}

pub fn c14(c: &mut Ctx) -> R<()> {
    if c.w.chance(1, 4) {
        // the skip operation itself
        let v = unknown_content(&mut c.w);
        let bytes = {
            let mut b = foreign(&mut c.w, &v).0;
            b.extend_from_slice(&[0xee, 0xdd]);
            b
        };
        // to the default depth, or one that the caller gives
        let depth = match c.w.draw(4) {
            0 | 1 => None,
            2 => Some((v.levels() as i8).saturating_sub(c.w.draw(3) as i8)),
            _ => Some(c.w.pick(&[0, 1, 2, 63, 64, 65, 126, 127, 100])),
        };
        let most = depth.map_or(MAX_LEVELS, |d| d as usize);
        let ok = v.levels() <= most;
        c.world.probe(if ok { "depth_within" } else { "depth_beyond" });
        for how in HOWS {
            let src = SimReader::new(&c.world, 2, bytes.clone(), Cfg::draw(&c.world).no_eintr());
            let mut s = ReadSession::new(how, &src, usize::MAX);
            match s.skip(ttype(v.ty()), depth)? {
                Ok(()) => {
                    ensure!(ok, "depth", "{:?} skip of content nested {} levels to depth {} succeeded", how, v.levels(), most);
                    ensure!(src.pos() == bytes.len() - 2, "consumption", "{:?} skip of {} consumed {} bytes of {}", how, v.brief(), src.pos(), bytes.len() - 2);
                }
                Err(k) => {
                    ensure!(!ok, "skip-refused", "{:?} skip of content nested {} levels to depth {}: {:?}; {}", how, v.levels(), most, k, v.brief());
                    ensure!(k == DEPTH_KIND, "wrong-kind", "{:?} skip of content nested {} levels: {:?} instead of the depth limit", how, v.levels(), k);
                }
            }
        }
        return Ok(());
    }
    let ops = pick_ops(&mut c.w);
    let v = gen_value(&mut c.w, ops, Size::Small);
    let mut tree = v.tree();
    let mut count = 0usize;
    for_each_struct(&mut tree, (ops.def)(), &mut |_, d| if !d.union { count += 1 });
    let mut deepest = 0;
    let inject = c.w.range(1, 4);
    for _ in 0..inject {
        if count == 0 {
            return Ok(());
        }
        let target = c.w.draw(count as u64) as usize;
        let content = unknown_content(&mut c.w);
        deepest = deepest.max(content.levels());
        let mut k = 0;
        let t = &mut c.w;
        for_each_struct(&mut tree, (ops.def)(), &mut |fs, d| {
            if d.union {
                return;
            }
            if k == target {
                let id = loop {
                    let id = match t.draw(6) {
                        0 => d.fields.iter().map(|f| f.id).max().unwrap_or(0) + 1,
                        1 => 0,
                        2 => -(t.range(1, 300) as i16),
                        3 => t.pick(&[16, 100, 127, 128, 1000, 32767, -32768]),
                        4 => t.range(15, 40) as i16,
                        _ => t.draw(65536) as u16 as i16,
                    };
                    if d.fields.iter().all(|f| f.id != id) {
                        break id;
                    }
                    // the simplest choice may be taken; step over the known ids
                    if d.fields.iter().all(|f| f.id != 99) {
                        break 99;
                    }
                };
                let at = t.draw(fs.len() as u64 + 1) as usize;
                fs.insert(at, (id, content.clone()));
            }
            k += 1;
        });
    }
    let ok = deepest <= MAX_LEVELS;
    c.world.probe(if ok { "depth_within" } else { "depth_beyond" });
    let mut bytes = foreign(&mut c.w, &tree).0;
    let len = bytes.len();
    bytes.extend_from_slice(&[0x77; 3]);
    for how in HOWS {
        let cfg = Cfg::draw(&c.world).no_eintr();
        let (r, src) = read_one(c, how, ops, bytes.clone(), usize::MAX, cfg)?;
        match r {
            Ok(w) => {
                ensure!(ok, "depth", "{:?} read of {} accepted unknown content nested {} levels", how, ops.name, deepest);
                ensure!(w.same(&*v), "wrong-value", "{:?} read of {} with unknown fields gave {} instead of {}; stream {}", how, ops.name, w.tree().brief(), v.tree().brief(), hex(&bytes));
                ensure!(src.pos() == len, "consumption", "{:?} read of {} with unknown fields consumed {} of {} bytes", how, ops.name, src.pos(), len);
            }
            Err(k) => {
                ensure!(!ok, "refused", "{:?} read of {} with unknown fields nested {} levels: {:?}; tree {}; stream {}", how, ops.name, deepest, k, tree.brief(), hex(&bytes));
                ensure!(k == DEPTH_KIND, "wrong-kind", "{:?} read of {} with unknown content nested {} levels: {:?} instead of the depth limit", how, ops.name, deepest, k);
            }
        }
    }
    Ok(())
}

pub fn c15(c: &mut Ctx) -> R<()> {
    let ops = pick_ops(&mut c.w);
    let v = gen_value(&mut c.w, ops, Size::Small);
    let mut tree = v.tree();
    for _ in 0..c.w.range(1, 3) {
        let mut count = 0usize;
        for_each_struct(&mut tree, (ops.def)(), &mut |_, _| count += 1);
        let target = c.w.draw(count as u64) as usize;
        let mut k = 0;
        let t = &mut c.w;
        for_each_struct(&mut tree, (ops.def)(), &mut |fs, d| {
            if k == target {
                let what = if d.fields.is_empty() { 3 } else { t.draw(6) };
                match what {
                    // lost
                    0 | 1 if !fs.is_empty() => {
                        let i = t.draw(fs.len() as u64) as usize;
                        fs.remove(i);
                    }
                    // repeated (or another variant, in a union), with new content
                    2 | 4 => {
                        let f = &d.fields[t.draw(d.fields.len() as u64) as usize];
                        let x = gen_tree(&f.ty, &mut Gen::new(t, 20, false));
                        let at = t.draw(fs.len() as u64 + 1) as usize;
                        fs.insert(at, (f.id, x));
                    }
                    // an unknown field; in a union, an unknown variant
                    3 => {
                        let at = t.draw(fs.len() as u64 + 1) as usize;
                        let x = if t.chance(1, 2) { Val::Struct(vec![]) } else { Val::I32(5) };
                        fs.insert(at, (t.pick(&[90, 9, 15, 16, -1]), x));
                        fs.retain(|(id, _)| *id != 9 || d.fields.iter().all(|f| f.id != 9));
                    }
                    // replaced by an unknown one
                    _ if !fs.is_empty() => {
                        let i = t.draw(fs.len() as u64) as usize;
                        fs[i] = (77, Val::Struct(vec![]));
                    }
                    _ => {}
                }
            }
            k += 1;
        });
    }
    let want = resolve(&tree, (ops.def)()).map(|t| sorted(&t));
    c.world.fault("field_loss_or_repeat");
    c.world.probe(if want.is_ok() { "acceptable" } else { "must_refuse" });
    // field order matters here: no shuffling
    let f = Forms { shuffle: false, ..forms(&mut c.w) };
    let bytes = {
        let mut e = Enc::new(f, &mut c.w);
        e.val(&tree);
        e.out
    };
    for how in HOWS {
        let cfg = Cfg::draw(&c.world).no_eintr();
        let (r, src) = read_one(c, how, ops, bytes.clone(), usize::MAX, cfg)?;
        match (&r, &want) {
            (Ok(w), Ok(t)) => {
                ensure!(sorted(&w.tree()) == *t, "wrong-value", "{:?} read of {} from {} gave {} instead of {}", how, ops.name, tree.brief(), w.tree().brief(), t.brief());
                ensure!(src.pos() == bytes.len(), "consumption", "{:?} read of {} consumed {} of {} bytes", how, ops.name, src.pos(), bytes.len());
            }
            (Err(_), Err(_)) => {}
            (Ok(w), Err(e)) => return fail("fabricated", format!("{:?} read of {} from {} ({}) gave {}", how, ops.name, tree.brief(), e, w.tree().brief())),
            (Err(k), Ok(t)) => return fail("refused", format!("{:?} read of {} from {} gave {:?} instead of {}", how, ops.name, tree.brief(), k, t.brief())),
        }
    }
    Ok(())
}
