use super::Ctx;
use crate::drive::*;
use crate::ensure;
use crate::exec::{fail, R};
use crate::io::*;
use crate::schema::*;
use crate::tape::Tape;
use crate::val::*;
use std::io::ErrorKind;

pub fn pick_how(t: &mut Tape) -> How {
    t.pick(&[How::Sync, How::Async, How::Boxed, How::Async])
}

fn values(c: &mut Ctx, max: u64) -> Vec<(&'static Ops, DynVal)> {
    let n = c.w.range(1, max);
    (0..n)
        .map(|i| {
            let ops = pick_ops(&mut c.w);
            let v = gen_value(&mut c.w, ops, if i == 0 { Size::Mixed } else { Size::Small });
            c.world.note(|| format!("value {}: {} {}", i, ops.name, v.tree().brief()));
            (ops, v)
        })
        .collect()
}

pub fn c01(c: &mut Ctx) -> R<()> {
    let vs = values(c, 3);
    let (hw, hr) = (pick_how(&mut c.w), pick_how(&mut c.w));
    c.world.note(|| format!("writer {:?}, reader {:?}", hw, hr));
    let sink = SimWriter::new(&c.world, 1, Cfg::draw(&c.world).no_eintr());
    let mut ws = WriteSession::new(hw, &sink);
    for (ops, v) in &vs {
        match ws.value(&**v)? {
            Ok(_) => {}
            Err(k) => return fail("write-error", format!("writing {} over a working transport: {:?}", ops.name, k)),
        }
    }
    let bytes = sink.got();
    let src = SimReader::new(&c.world, 2, bytes.clone(), Cfg::draw(&c.world).no_eintr());
    let mut rs = ReadSession::new(hr, &src, usize::MAX);
    for (i, (ops, v)) in vs.iter().enumerate() {
        match rs.value(ops)? {
            Ok(w) => {
                ensure!(
                    w.same(&**v),
                    "round-trip",
                    "value {} ({}) written by {:?} and read by {:?}: {} became {} (bytes {})",
                    i, ops.name, hw, hr, v.tree().brief(), w.tree().brief(), hex(&bytes)
                );
            }
            Err(k) => {
                return fail(
                    "round-trip",
                    format!("value {} ({}) written by {:?}, reading by {:?} gave {:?}: {} (bytes {})", i, ops.name, hw, hr, k, v.tree().brief(), hex(&bytes)),
                )
            }
        }
    }
    Ok(())
}

/// Zeros beyond what the format's 32-bit lengths can say (never touched, so never backed by memory).
fn endless_zeros() -> Option<&'static [u8]> {
    use std::alloc::{GlobalAlloc, Layout, System};
    static Z: std::sync::OnceLock<Option<&'static [u8]>> = std::sync::OnceLock::new();
    *Z.get_or_init(|| {
        let n = (1usize << 32) + 4096;
        let p = unsafe { System.alloc_zeroed(Layout::from_size_align(n, 1).ok()?) };
        if p.is_null() {
            return None;
        }
        Some(unsafe { std::slice::from_raw_parts(p, n) })
    })
}

/// Content that is too long for the format is refused, and nothing of it is written.
fn c02_too_long(c: &mut Ctx) -> R<()> {
    let z = match endless_zeros() {
        Some(z) => z,
        None => return Ok(()),
    };
    let n = (1usize << 32) + c.w.pick(&[0usize, 1, 5, 127, 128, 4000]);
    for how in HOWS {
        let sink = SimWriter::new(&c.world, 1, Cfg::draw(&c.world).no_eintr());
        {
            // a sink that is not filled with it
            let mut g = sink.get();
            g.fail = Some((300, WFail::Err(std::io::ErrorKind::Other)));
            g.sticky = true;
        }
        let string = c.w.chance(1, 2);
        let mut ws = WriteSession::new(how, &sink);
        let r = ws.slice(&z[..n], string)?;
        let want = Kind::P(parquet_format_safe::thrift::ProtocolErrorKind::InvalidData);
        ensure!(r == Err(want) && sink.len() == 0, "too-long", "{:?} write of {} bytes of content: {:?}, {} bytes reached the sink", how, n, r, sink.len());
    }
    c.world.probe("too_long");
    Ok(())
}

pub fn c02(c: &mut Ctx) -> R<()> {
    if c.w.chance(1, 100) {
        return c02_too_long(c);
    }
    let ops = pick_ops(&mut c.w);
    let v = gen_value(&mut c.w, ops, Size::Mixed);
    let want = sorted(&v.tree());
    c.world.note(|| format!("{} {}", ops.name, want.brief()));
    let mut first: Option<Vec<u8>> = None;
    for (i, how) in [How::Sync, How::Async, How::Boxed, How::Sync, How::Async].iter().enumerate() {
        // first round undisturbed, then under drawn schedules
        let cfg = if i < 1 { Cfg::PLAIN } else { Cfg::draw(&c.world).no_eintr() };
        let sink = SimWriter::new(&c.world, i as u32, cfg);
        let mut ws = WriteSession::new(*how, &sink);
        if let Err(k) = ws.value(&*v)? {
            return fail("write-error", format!("{:?} writer of {}: {:?}", how, ops.name, k));
        }
        let b = sink.got();
        match &first {
            None => {
                match decode_all(&b, T_STRUCT) {
                    Ok(t) => ensure!(
                        sorted(&t) == want,
                        "wire",
                        "{} writer {:?}: value {} decodes to {} (bytes {})",
                        ops.name, how, want.brief(), t.brief(), hex(&b)
                    ),
                    Err(e) => return fail("wire", format!("{} writer {:?}: not a compact struct: {} (bytes {})", ops.name, how, e, hex(&b))),
                }
                first = Some(b);
            }
            Some(f) => ensure!(
                *f == b,
                "wire-differs",
                "{}: {:?} writer under {:?} wrote {} instead of {} for {}",
                ops.name, how, cfg, hex(&b), hex(f), want.brief()
            ),
        }
    }
    Ok(())
}

/// A program of element operations for one message holding arbitrary values.
/// The header of a collection of any size at all.
pub fn big_header(t: &mut Tape) -> El {
    let n = match t.draw(4) {
        0 => t.draw(20),
        1 => (1u64 << (7 * t.range(1, 4))) + t.draw(5) - 2,
        2 => (1u64 << t.range(4, 32)) - 1,
        _ => t.raw() & 0xffff_ffff,
    } as u32;
    let e = t.range(2, 12) as u8;
    let e = if e == 2 { 1 } else { e };
    match t.draw(3) {
        0 => El::ListBegin(e, n),
        1 => El::SetBegin(e, n),
        _ => {
            let v = t.range(3, 12) as u8;
            if n == 0 {
                El::MapBegin(0, 0, 0)
            } else {
                El::MapBegin(e, v, n)
            }
        }
    }
}

pub fn program(t: &mut Tape, utf8: bool) -> Vec<El> {
    let mut p = some_program(t, utf8);
    if t.chance(1, 12) {
        p.push(big_header(t));
    }
    p
}

fn some_program(t: &mut Tape, utf8: bool) -> Vec<El> {
    let mut out = vec![];
    let parts = t.range(1, 3);
    // structs within structs, with something in front of and behind each
    if t.chance(1, 16) {
        let n = t.pick(&[20usize, 31, 32, 33, 40, 64, 65, 127, 128, 129, 200, 300]);
        let mut v = Val::Struct(vec![]);
        for k in 0..n {
            let at = if k % 7 == 3 { t.range(1, 300) as i16 } else { 2 };
            let mut fs = vec![(at, v)];
            if t.chance(1, 3) && at > 1 {
                fs.insert(0, (at - 1, Val::Bool(true)));
            }
            if t.chance(1, 2) {
                fs.push((at + t.range(1, 16) as i16, Val::I8(k as i8)));
            }
            v = Val::Struct(fs);
        }
        flatten(&v, &mut out);
    }
    for _ in 0..parts {
        let mut g = AnyGen { depth: t.range(1, 5) as u32, budget: t.pick(&[6, 30, 120]), utf8 };
        match t.weighted(&[4, 2, 2, 1]) {
            0 => {
                let v = g.val(t, T_STRUCT, 0);
                flatten(&v, &mut out);
            }
            1 => {
                let v = g.val(t, T_STRUCT, 0);
                let name = Gen::new(t, 200, false).string();
                let ty = t.range(1, 4) as u8;
                let seq = match t.draw(4) {
                    0 => 0,
                    1 => t.draw(300) as u32,
                    2 => u32::MAX - t.draw(2) as u32,
                    _ => t.raw() as u32,
                };
                out.push(El::MsgBegin(name, ty, seq));
                flatten(&v, &mut out);
                out.push(El::MsgEnd);
            }
            2 => {
                let ty = g.ty(t, false);
                let v = g.val(t, ty, 0);
                flatten(&v, &mut out);
            }
            _ => {
                for _ in 0..t.range(1, 4) {
                    out.push(El::Byte(t.draw(256) as u8));
                }
            }
        }
    }
    out
}

pub fn c04(c: &mut Ctx) -> R<()> {
    let how = pick_how(&mut c.w);
    let sink = SimWriter::new(&c.world, 1, Cfg::draw(&c.world));
    let mut ws = WriteSession::new(how, &sink);
    if c.w.chance(1, 2) {
        for (ops, v) in &values(c, 3) {
            let before = sink.len();
            let n = match ws.value(&**v)? {
                Ok(n) => n,
                Err(k) => return fail("write-error", format!("{:?} writing {}: {:?}", how, ops.name, k)),
            };
            ensure!(
                n == sink.len() - before,
                "count",
                "{:?} write of {} reported {} bytes, the transport accepted {}: {}",
                how, ops.name, n, sink.len() - before, v.tree().brief()
            );
        }
    } else {
        let prog = program(&mut c.w, false);
        for op in &prog {
            let before = sink.len();
            let n = match ws.elem(op)? {
                Ok(n) => n,
                Err(k) => return fail("write-error", format!("{:?} writing {:?}: {:?}", how, op, k)),
            };
            ensure!(
                n == sink.len() - before,
                "count",
                "{:?} write of {:?} reported {} bytes, the transport accepted {}",
                how, op, n, sink.len() - before
            );
        }
    }
    Ok(())
}

/// A writer that failed should not be used again (documented); if it is all the same, nothing is
/// acknowledged unless all of it arrived.
fn after_failure(c: &mut Ctx, how: How, ws: &mut WriteSession, sink: &SimWriter, sticky: bool) -> R<()> {
    let before = sink.got();
    let (what, r, enc) = match c.world.draw(8) {
        7 => {
            let ops = ops_by_name("Statistics");
            let v = gen_value(&mut c.w, ops, Size::Small);
            (ops.name.to_string(), ws.value(&*v)?, encode(&v.tree()))
        }
        k => {
            let el = match k {
                0 => El::Byte(9),
                1 => El::I8(-3),
                2 => El::I16(300),
                3 => El::I64(-70_000),
                4 => El::Str("after".into()),
                5 => El::Double(1.5f64.to_bits()),
                _ => El::ListBegin(T_STRUCT, 20),
            };
            let e = super::reads::elem_bytes(&[el.clone()]);
            (format!("{:?}", el), ws.elem(&el)?, e)
        }
    };
    let got = sink.got();
    ensure!(got.starts_with(&before), "not-a-prefix", "{:?}: what the sink held changed", how);
    let came = &got[before.len()..];
    match r {
        Ok(n) => {
            ensure!(!sticky, "acknowledged", "{:?} write of {} after a failure returned {} although the sink still fails", how, what, n);
            ensure!(n == came.len() && came == &enc[..], "acknowledged", "{:?} write of {} after a failure returned {} and delivered {} instead of {}", how, what, n, hex(came), hex(&enc));
        }
        Err(_) => {}
    }
    Ok(())
}

pub fn c06(c: &mut Ctx) -> R<()> {
    let how = pick_how(&mut c.w);
    let by_value = c.w.chance(1, 2);
    // what to write, and its complete encoding
    enum Work {
        V(Vec<(&'static Ops, DynVal)>),
        P(Vec<El>),
    }
    let work = if by_value {
        Work::V(values(c, 2))
    } else {
        Work::P(program(&mut c.w, false))
    };
    let full = {
        let sink = SimWriter::new(&c.world, 0, Cfg::PLAIN);
        let mut ws = WriteSession::new(how, &sink);
        match &work {
            Work::V(vs) => {
                for (_, v) in vs {
                    let _ = ws.value(&**v)?;
                }
            }
            Work::P(p) => {
                for op in p {
                    let _ = ws.elem(op)?;
                }
            }
        }
        sink.got()
    };
    for _ in 0..4 {
        let at = match c.world.draw(4) {
            0 => full.len().saturating_sub(1 + c.world.draw(3) as usize),
            1 => c.world.draw(4) as usize,
            _ => c.world.draw(full.len() as u64 + 1) as usize,
        };
        let f = c.world.with(|w| {
            if w.s.chance(2, 5) {
                WFail::Zero
            } else {
                WFail::Err(w.kind(how != How::Async))
            }
        });
        let sticky = c.world.chance(1, 2);
        let want = match f {
            WFail::Zero => category(ErrorKind::WriteZero),
            WFail::Err(k) => category(k),
        };
        c.world.note(|| format!("sink fails at byte {} of {} with {:?} sticky={}", at, full.len(), f, sticky));
        let sink = SimWriter::new(&c.world, 1, Cfg::draw(&c.world).no_eintr()).fail_at(at, f, sticky);
        let mut ws = WriteSession::new(how, &sink);
        let mut failure: Option<(String, Kind)> = None;
        match &work {
            Work::V(vs) => {
                for (ops, v) in vs {
                    let before = sink.stats().failed;
                    let r = ws.value(&**v)?;
                    let hit = sink.stats().failed > before;
                    match r {
                        Ok(n) => ensure!(!hit, "acknowledged", "{:?} write of {} returned {} although the sink failed ({:?}) at byte {}; it holds {} of {} bytes", how, ops.name, n, f, at, sink.len(), full.len()),
                        Err(k) => {
                            failure = Some((ops.name.to_string(), k));
                            break;
                        }
                    }
                }
            }
            Work::P(p) => {
                for op in p {
                    let before = sink.stats().failed;
                    let r = ws.elem(op)?;
                    let hit = sink.stats().failed > before;
                    match r {
                        Ok(n) => ensure!(!hit, "acknowledged", "{:?} write of {:?} returned {} although the sink failed ({:?}) at byte {}", how, op, n, f, at),
                        Err(k) => {
                            failure = Some((format!("{:?}", op), k));
                            break;
                        }
                    }
                }
            }
        }
        let got = sink.got();
        ensure!(
            got.len() <= full.len() && got[..] == full[..got.len()],
            "not-a-prefix",
            "{:?}: after failure {:?} at byte {} the sink holds {} which is no prefix of {}",
            how, f, at, hex(&got), hex(&full)
        );
        match failure {
            Some((what, k)) => {
                ensure!(sink.stats().failed > 0, "spurious-error", "{:?} write of {} failed with {:?} though the sink did not", how, what, k);
                ensure!(k == want, "wrong-kind", "{:?} write of {}: sink failure {:?} reported as {:?}, expected {:?}", how, what, f, k, want);
                if c.world.chance(1, 2) {
                    after_failure(c, how, &mut ws, &sink, sticky)?;
                }
            }
            None => ensure!(got == full, "lost", "{:?}: all writes acknowledged, the sink holds {} instead of {}", how, hex(&got), hex(&full)),
        }
    }
    Ok(())
}

/// Crash consistency: the sink has a write-back cache; a flush makes everything durable; a crash at
/// a drawn point keeps the durable bytes and a drawn prefix of the cached ones.
/// What is written between flushes.
enum Rec {
    Value(&'static Ops, DynVal),
    Elems(Vec<El>),
}
impl Rec {
    fn gen(t: &mut Tape) -> Rec {
        match t.draw(4) {
            3 => Rec::Elems(if t.chance(1, 2) {
                program(t, true)
            } else {
                // a few single elements
                let mut g = AnyGen { depth: 1, budget: 10, utf8: true };
                let mut p = vec![];
                for _ in 0..t.range(1, 3) {
                    match t.draw(8) {
                        0 => p.push(El::Byte(t.draw(256) as u8)),
                        1 => p.push(El::Double(t.raw())),
                        _ => {
                            let ty = g.ty(t, false);
                            flatten(&g.val(t, ty, 1), &mut p)
                        }
                    }
                }
                p
            }),
            _ => {
                let ops = pick_ops(t);
                Rec::Value(ops, gen_value(t, ops, Size::Small))
            }
        }
    }
    fn len(&self) -> usize {
        match self {
            Rec::Value(_, v) => plain_bytes(&**v).len(),
            Rec::Elems(p) => super::reads::elem_bytes(p).len(),
        }
    }
    fn name(&self) -> String {
        match self {
            Rec::Value(o, _) => o.name.into(),
            Rec::Elems(p) => format!("{:?}", p),
        }
    }
    /// Write it, with a flush after element `mid`.
    fn write(&self, ws: &mut WriteSession, sink: &SimWriter, mid: usize) -> R<Out<()>> {
        match self {
            Rec::Value(_, v) => Ok(ws.value(&**v)?.map(|_| ())),
            Rec::Elems(p) => {
                for (i, op) in p.iter().enumerate() {
                    if let Err(k) = ws.elem(op)? {
                        return Ok(Err(k));
                    }
                    if i == mid {
                        match ws.flush()? {
                            Ok(()) => ensure!(sink.durable() == sink.len(), "flush-lost", "flush after {:?} reported success, {} of {} written bytes are durable", op, sink.durable(), sink.len()),
                            Err(k) => return fail("flush-error", format!("flush after {:?} failed with {:?} over a working transport", op, k)),
                        }
                    }
                }
                Ok(Ok(()))
            }
        }
    }
    /// Read it back: the error, or whether it is what was written.
    fn read(&self, rs: &mut ReadSession) -> R<Out<Result<(), String>>> {
        match self {
            Rec::Value(o, v) => Ok(rs.value(o)?.map(|w| if w.same(&**v) { Ok(()) } else { Err(w.tree().brief()) })),
            Rec::Elems(p) => {
                for op in p {
                    match rs.elem(op)? {
                        Ok(g) if g == op.expect() => {}
                        Ok(g) => return Ok(Ok(Err(format!("{:?} as {:?}", op, g)))),
                        Err(k) => return Ok(Err(k)),
                    }
                }
                Ok(Ok(Ok(())))
            }
        }
    }
}

pub fn c18(c: &mut Ctx) -> R<()> {
    let how = pick_how(&mut c.w);
    let mut vs: Vec<Rec> = (0..c.w.range(1, 5)).map(|_| Rec::gen(&mut c.w)).collect();
    let mut cfg = Cfg::draw(&c.world);
    if how == How::Async {
        cfg = cfg.no_eintr();
    }
    let sink = SimWriter::new(&c.world, 1, cfg);
    let mut ws = WriteSession::new(how, &sink);
    let total: usize = vs.iter().map(Rec::len).sum();
    // the device stops working for good at this byte, if it is reached
    if c.world.chance(1, 3) {
        let at = c.world.draw(total as u64 + 1) as usize;
        let mut g = sink.get();
        g.fail = Some((at, WFail::Err(ErrorKind::Other)));
        g.sticky = true;
    }
    let crash_after = c.world.draw(vs.len() as u64 + 1) as usize;
    let mut ends = vec![]; // ends of completely written values
    let mut acked = 0usize; // values known durable
    let mut dead = false;
    for (i, v) in vs.iter().enumerate() {
        if i == crash_after && c.world.chance(1, 2) {
            break;
        }
        let mid = if c.world.chance(1, 3) { c.world.draw(12) as usize } else { usize::MAX };
        match v.write(&mut ws, &sink, mid)? {
            Ok(()) => ends.push(sink.len()),
            Err(_) => {
                ensure!(sink.stats().failed > 0, "write-error", "write failed although the sink did not");
                dead = true;
            }
        }
        if dead {
            break;
        }
        if c.world.chance(1, 2) {
            let plan = if c.world.chance(1, 4) {
                let k = if how != How::Async && c.world.chance(1, 8) { ErrorKind::Interrupted } else { c.world.kind(how != How::Async) };
                sink.get().flush_fail = Some(k);
                Some(k)
            } else {
                None
            };
            let flushes = sink.flushes();
            match (ws.flush()?, plan) {
                (Ok(()), None) => {
                    ensure!(
                        sink.durable() == sink.len(),
                        "flush-lost",
                        "{:?} flush reported success, {} of {} written bytes are durable",
                        how, sink.durable(), sink.len()
                    );
                    acked = ends.len();
                    c.world.probe("flush_acknowledged");
                }
                (Err(k), Some(io)) => {
                    ensure!(k == category(io), "wrong-kind", "{:?} flush failure {:?} reported as {:?}", how, io, k);
                }
                (Ok(()), Some(ErrorKind::Interrupted)) => {
                    // retried
                    ensure!(sink.durable() == sink.len(), "flush-lost", "{:?} interrupted flush reported success, {} of {} written bytes are durable", how, sink.durable(), sink.len());
                    acked = ends.len();
                }
                (Ok(()), Some(io)) => {
                    return fail("flush-acknowledged", format!("{:?} flush reported success; transport flush calls: {}, failing one was to return {:?}", how, sink.flushes() - flushes, io))
                }
                (Err(k), None) => return fail("flush-error", format!("{:?} flush failed with {:?} over a working transport", how, k)),
            }
        }
    }
    // crash, also in the middle of an asynchronous write
    vs.truncate(ends.len() + dead as usize);
    let extra_ops = pick_ops(&mut c.w);
    let extra = gen_value(&mut c.w, extra_ops, Size::Small);
    let mut more = false;
    if !dead && c.world.chance(1, 3) {
        if let OutP::Async(p) = &mut ws.p {
            let n = c.world.draw(6);
            let mut e = crate::exec::Exec::new(&c.world, 2);
            e.add(extra.write_async(p));
            for _ in 0..n {
                if !e.step(None)? {
                    break;
                }
            }
            more = true;
            match e.take(0) {
                Some(Ok(Ok(_))) => ends.push(sink.len()),
                _ => c.world.fault("crash_mid_write"),
            }
        }
    }
    drop(ws);
    if more {
        vs.push(Rec::Value(extra_ops, extra));
    }

    c.world.fault("crash");
    let (durable, written) = {
        let g = sink.get();
        (g.durable, g.got.clone())
    };
    let keep = durable + c.world.draw((written.len() - durable) as u64 + 1) as usize;
    let disk = written[..keep].to_vec();
    c.world.note(|| format!("crash: {} durable, {} written, {} survive; value ends {:?}, {} acknowledged", durable, written.len(), keep, ends, acked));
    let complete = ends.iter().filter(|e| **e <= keep).count();
    ensure!(complete >= acked, "durability", "{} values acknowledged, only {} survive", acked, complete);
    for hr in [How::Sync, How::Async] {
        let src = SimReader::new(&c.world, 2, disk.clone(), Cfg::draw(&c.world).no_eintr());
        let mut rs = ReadSession::new(hr, &src, usize::MAX);
        for (i, v) in vs.iter().take(complete).enumerate() {
            match v.read(&mut rs)? {
                Ok(Ok(())) => {}
                Ok(Err(got)) => return fail("recovery", format!("{:?} recovery of item {}: {} became {}", hr, i, v.name(), got)),
                Err(k) => return fail("recovery", format!("{:?} recovery of complete item {} ({}) failed with {:?}", hr, i, v.name(), k)),
            }
        }
        // the torn tail must not decode
        match vs.get(complete) {
            Some(Rec::Elems(p)) => match Rec::read(&vs[complete], &mut rs)? {
                Ok(r) => return fail("phantom", format!("{:?} recovery returned elements that were never completely written: {:?} {:?}", hr, p, r)),
                Err(k) => ensure!(k == EOF_KIND, "wrong-kind", "{:?} recovery: torn tail reported as {:?}", hr, k),
            },
            next => {
                let ops = if let Some(Rec::Value(o, _)) = next { *o } else { extra_ops };
                match rs.value(ops)? {
                    Ok(w) => return fail("phantom", format!("{:?} recovery returned a value that was never completely written: {} {}", hr, ops.name, w.tree().brief())),
                    Err(k) => ensure!(k == EOF_KIND, "wrong-kind", "{:?} recovery: torn tail reported as {:?}", hr, k),
                }
            }
        }
    }
    Ok(())
}
