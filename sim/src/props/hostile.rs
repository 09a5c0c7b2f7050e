use super::reads::{chain, corrupt, foreign, unknown_content};
use super::writes::{pick_how, program};
use super::Ctx;
use crate::alloc;
use crate::drive::*;
use crate::ensure;
use crate::exec::{fail, R};
use crate::io::*;
use crate::schema::*;
use crate::tape::Tape;
use crate::val::*;

fn random_bytes(t: &mut Tape) -> Vec<u8> {
    let n = t.pick(&[1, 3, 10, 40, 200, 1500]);
    let n = t.range(0, n) as usize;
    match t.draw(3) {
        0 => (0..n).map(|_| t.draw(256) as u8).collect(),
        // bytes that look like headers
        1 => (0..n)
            .map(|_| {
                let delta = t.pick(&[1, 1, 0, 2, 15]);
                (delta << 4) | (t.draw(14) as u8)
            })
            .collect(),
        _ => {
            let k = t.range(1, 6);
            let unit: Vec<u8> = (0..k).map(|_| t.draw(256) as u8).collect();
            unit.iter().cycle().take(n).copied().collect()
        }
    }
}

/// Hostile nesting: as deep as the stream is long.
fn nest_bomb(t: &mut Tape) -> Vec<u8> {
    let unit: &[u8] = match t.draw(6) {
        0 => &[0x1c],                   // struct in struct
        1 => &[0x19],                   // list of one list
        2 => &[0x1a],                   // set of one set
        3 => &[0x01, 0xbb],             // map of maps
        4 => &[0x1c, 0x19, 0x1c],       // struct, list of struct
        _ => &[0x09, 0xc8, 0x01, 0x19], // long-form field ids
    };
    let n = t.pick(&[10, 70, 200, 3000, 60_000]);
    let first: &[u8] = match t.draw(4) {
        0 => &[0x0c, 0xc8, 0x01],
        1 => &[0x09, 0xc8, 0x01],
        2 => &[0x0a, 0xc8, 0x01],
        _ => &[0x0b, 0xc8, 0x01],
    };
    let mut b = first.to_vec();
    for _ in 0..n {
        b.extend_from_slice(unit);
    }
    b
}

/// Declared sizes far beyond what follows.
pub fn size_bomb(t: &mut Tape, ops: &'static Ops) -> Vec<u8> {
    let mut b = vec![];
    // an arbitrary field of the type with a declared size
    let d = (ops.def)();
    let sized: Vec<_> = d.fields.iter().filter(|f| matches!(f.ty, Ty::Str | Ty::Bin | Ty::List(_))).collect();
    let (id, code) = if sized.is_empty() || t.chance(1, 4) {
        (100i16, t.pick(&[T_BYTES, T_LIST, T_SET, T_MAP]))
    } else {
        let f = sized[t.draw(sized.len() as u64) as usize];
        (f.id, f.ty.wire())
    };
    b.push(code);
    b.extend(encode(&Val::I16(id)));
    let n = match t.draw(6) {
        0 => 0xffff_ffff,
        1 => 0x7fff_ffff,
        2 => 1 << t.range(8, 31),
        3 => t.range(1 << 16, 1 << 22),
        4 => t.range(1, 4096),
        _ => t.draw(1 << 32),
    };
    match code {
        T_BYTES => put_varint(&mut b, n),
        T_MAP => {
            put_varint(&mut b, n);
            b.push(t.pick(&[0x33, 0xcc, 0x88, 0x9c]));
        }
        _ => {
            let e = match sized.iter().find(|f| f.id == id).map(|f| &f.ty) {
                Some(Ty::List(e)) => e.wire(),
                _ => t.pick(&[T_STRUCT, T_BOOL, T_LIST]),
            };
            b.push(0xf0 | e);
            put_varint(&mut b, n);
        }
    }
    // and some content
    let k = t.pick(&[0, 1, 30, 300]);
    for _ in 0..k {
        b.push(t.pick(&[0, 0x15, 0x18, 1, 2, 0x61]));
    }
    b
}

/// Collections of unknown fields that declare billions of entries, of any element type, and bring
/// few or none.
fn count_bomb(t: &mut Tape) -> Vec<u8> {
    let mut b = vec![];
    let n = t.pick(&[0x7fff_ffffu64, 0xffff_ffff, 0x8000_0000]);
    let (form, e, k) = (t.draw(3), t.draw(16) as u8, t.draw(16) as u8);
    let entry = t.pick::<&[u8]>(&[&[], &[0], &[1], &[0, 0, 0]]);
    for _ in 0..t.pick(&[1, 24]) {
        match form {
            0 | 1 => {
                b.extend([9 + form as u8, 0xc8, 0x01, 0xf0 | e]);
                put_varint(&mut b, n);
            }
            _ => {
                b.extend([0x0b, 0xc8, 0x01]);
                put_varint(&mut b, n);
                b.push(k << 4 | e);
            }
        }
        b.extend_from_slice(entry);
    }
    b.push(0);
    b
}

/// Well-formed fields with ids at and across the boundaries of their forms.
pub fn field_soup(t: &mut Tape, ops: &'static Ops) -> Vec<u8> {
    let d = (ops.def)();
    let mut b = vec![];
    for _ in 0..t.range(1, 10) {
        let mut g = AnyGen { depth: 2, budget: 6, utf8: false };
        let known = &d.fields[t.draw(d.fields.len().max(1) as u64) as usize % d.fields.len().max(1)..];
        let (id, v) = match known.first() {
            Some(f) if t.chance(1, 3) => {
                let mut g = Gen::new(t, 20, false);
                let v = gen_tree(&f.ty, &mut g);
                (f.id, v)
            }
            _ => {
                let ty = g.ty(t, false);
                let id = t.pick(&[0i16, 1, -1, 15, 16, 64, 127, 128, -128, -129, 8191, 8192, 32750, 32760, 32766, 32767, -32768, -32767, 16384]);
                (id, g.val(t, ty, 0))
            }
        };
        if t.chance(1, 2) {
            field(&mut b, id, &v);
        } else {
            // relative to wherever the last one was
            let code = match &v {
                Val::Bool(true) => 1,
                Val::Bool(false) => 2,
                v => v.ty(),
            };
            b.push(((1 + t.draw(15) as u8) << 4) | code);
            if !matches!(v, Val::Bool(_)) {
                b.extend(encode(&v));
            }
        }
    }
    if t.chance(3, 4) {
        b.push(0);
    }
    b
}

pub fn hostile(c: &mut Ctx, ops: &'static Ops) -> Vec<u8> {
    let t = &mut c.w;
    match t.weighted(&[6, 3, 2, 3, 1, 3, 2, 1]) {
        7 => count_bomb(t),
        0 => {
            let v = gen_value(t, ops, Size::Small);
            let mut b = foreign(t, &v.tree()).0;
            corrupt(t, &mut b);
            b
        }
        1 => random_bytes(t),
        2 => nest_bomb(t),
        3 => size_bomb(t, ops),
        4 => {
            // a value of another type
            let other = pick_ops(t);
            let v = gen_value(t, other, Size::Small);
            foreign(t, &v.tree()).0
        }
        6 => field_soup(t, ops),
        _ => {
            // valid, with deep or odd unknown content, possibly damaged
            let v = gen_value(t, ops, Size::Small);
            let mut tree = v.tree();
            if let Val::Struct(fs) = &mut tree {
                let at = t.draw(fs.len() as u64 + 1) as usize;
                let x = if t.chance(1, 2) { unknown_content(t) } else { let n = t.pick(&[63, 64, 65, 120]); chain(t, n) };
                fs.insert(at, (200, x));
            }
            let mut b = foreign(t, &tree).0;
            if t.chance(1, 2) {
                corrupt(t, &mut b);
            }
            b
        }
    }
}

pub fn c09(c: &mut Ctx) -> R<()> {
    let ops = pick_ops(&mut c.w);
    let bytes = hostile(c, ops);
    let limit = match c.w.draw(5) {
        0 => usize::MAX,
        1 => c.w.draw(64) as usize,
        2 => c.w.draw(4096) as usize,
        3 => 0,
        _ => 1 << 20,
    };
    c.world.note(|| format!("{} limit {} stream {}", ops.name, limit, hex(&bytes)));
    for how in HOWS {
        let mut cfg = Cfg::draw(&c.world);
        if bytes.len() > 5000 {
            cfg.pend = cfg.pend.min(1);
        }
        let mut src = SimReader::new(&c.world, 2, bytes.clone(), cfg);
        if c.world.chance(1, 4) {
            let k = c.world.kind(how != How::Async);
            src = src.fail_at(c.world.draw(bytes.len() as u64 + 1) as usize, k, c.world.chance(1, 2));
        }
        alloc::reset();
        let mut s = ReadSession::new(how, &src, limit);
        // keep reading, as a recovering application would
        let more = c.world.draw(3);
        let mut errs = 0;
        for k in 0..1 + more {
            // panics and runaway reads come back as violations of their own
            let r = s.value(ops)?;
            if k == 0 {
                c.world.probe(if r.is_ok() { "hostile_ok" } else { "hostile_err" });
            }
            if r.is_err() {
                errs += 1;
            }
        }
        let st = src.stats();
        // every element consumes or fails: calls are linear in what was supplied
        let budget = 64 + 8 * (1 + more) + 4 * (src.pos() as u64 + st.eintrs + st.pends + st.failed + st.eofs);
        ensure!(st.calls <= budget, "too-many-reads", "{:?} read of {}: {} transport reads for {} bytes, {} retries", how, ops.name, st.calls, src.pos(), st.eintrs + st.pends);
        ensure!(st.eofs <= 2 * (1 + more) + 2, "reads-after-end", "{:?} read of {}: {} reads after the end of the stream in {} operations", how, ops.name, st.eofs, 1 + more);
        let _ = errs;
        // nor does it keep itself busy otherwise
        let n = alloc::count();
        let most = 400 * (1 + more) + 40 * src.pos() as u64;
        c.world.with(|w| {
            let m = w.probes.entry("max_allocations_percent_of_bound").or_insert(0);
            *m = (*m).max(n * 100 / most);
        });
        ensure!(n <= most, "too-much-work", "{:?} read of {}: {} allocations for {} bytes in {} operations", how, ops.name, n, src.pos(), 1 + more);
    }
    // other operations over the same bytes
    let how = pick_how(&mut c.w);
    let src = SimReader::new(&c.world, 3, bytes, Cfg::draw(&c.world));
    alloc::reset();
    let ops = other_reads(c, how, &src, limit)?;
    let st = src.stats();
    let budget = 64 + 8 * ops + 4 * (src.pos() as u64 + st.eintrs + st.pends + st.failed + st.eofs);
    ensure!(st.calls <= budget, "too-many-reads", "{:?} reads of elements: {} transport reads for {} bytes, {} retries", how, st.calls, src.pos(), st.eintrs + st.pends);
    ensure!(st.eofs <= 2 * ops + 2, "reads-after-end", "{:?} reads of elements: {} reads after the end of the stream in {} operations", how, st.eofs, ops);
    let (n, most) = (alloc::count(), 400 * ops + 40 * src.pos() as u64);
    ensure!(n <= most, "too-much-work", "{:?} reads of elements: {} allocations for {} bytes in {} operations", how, n, src.pos(), ops);
    Ok(())
}

/// Read calls below the level of values, until one fails. Returns their number.
fn other_reads(c: &mut Ctx, how: How, src: &SimReader, limit: usize) -> R<u64> {
    match c.w.draw(4) {
        0 | 1 => {
            // well-nested elements
            let prog = program(&mut c.w, false);
            let mut s = ReadSession::new(how, src, limit);
            for (i, op) in prog.iter().enumerate() {
                if s.elem(op)?.is_err() {
                    return Ok(i as u64 + 1);
                }
            }
            Ok(prog.len() as u64)
        }
        2 => {
            // content skipped, lists
            let mut s = ReadSession::new(how, src, limit);
            for i in 0..c.w.range(1, 4) {
                let failed = if c.w.chance(1, 2) {
                    let e = c.w.pick(&[ListOf::Bool, ListOf::Byte, ListOf::I64, ListOf::Str, ListOf::Bin]);
                    s.list(e)?.is_err()
                } else {
                    let t = c.w.pick(&[T_BOOL, T_I8, T_I64, T_DOUBLE, T_BYTES, T_LIST, T_SET, T_MAP, T_STRUCT]);
                    s.skip(ttype(t), None)?.is_err()
                };
                if failed {
                    return Ok(i + 1);
                }
            }
            Ok(4)
        }
        _ => {
            // an application error
            let how = if how == How::Async { How::Sync } else { how };
            let _ = super::elem::app_read(how, src, limit)?;
            Ok(1)
        }
    }
}

/// The fixed part of the memory bound: futures, protocol objects, small buffers.
pub const FIXED: i64 = 128 * 1024;
pub const PER_BYTE: i64 = 128;
const BIG: usize = 1 << 20;

pub fn c10(c: &mut Ctx) -> R<()> {
    match c.w.weighted(&[5, 3, 2, 2]) {
        3 => c10_other(c),
        0 => c10_bound(c),
        1 => c10_declared(c),
        _ => c10_content(c),
    }
}

/// After a read has failed (or its value was dropped) and the session is closed, nothing is held.
fn settle(s: ReadSession, r: Out<DynVal>, what: &str, how: How) -> R<()> {
    {
        let _t = alloc::track();
        drop(r);
    }
    s.close();
    let left = alloc::current();
    ensure!(left <= 0, "leak", "{:?} read of {}: {} bytes still held after everything was dropped", how, what, left);
    Ok(())
}

fn c10_bound(c: &mut Ctx) -> R<()> {
    let ops = pick_ops(&mut c.w);
    let (bytes, total) = match c.w.draw(5) {
        4 => {
            let (b, n) = long_unknown(&mut c.w);
            let spare = if c.w_half() { 2 } else { n / 4 };
            return c10_run(c, ops, b, n + spare);
        }
        0 => {
            let v = gen_value(&mut c.w, ops, Size::Medium);
            let (b, ch) = foreign(&mut c.w, &v.tree());
            (b, ch.iter().map(|x| x.amount).sum())
        }
        1 => {
            // lists of the fattest entries
            let k = c.w.range(1, 200);
            let (name, id) = c.w.pick(&[("RowGroup", 1i16), ("FileMetaData", 2), ("FileMetaData", 4), ("ColumnIndex", 2), ("ColumnMetaData", 3), ("ColumnMetaData", 13), ("OffsetIndex", 1), ("FileMetaData", 7)]);
            let mut b = vec![0x09];
            b.extend(encode(&Val::I16(id)));
            let e = if name == "ColumnIndex" || name == "ColumnMetaData" && id == 3 { T_BYTES } else { T_STRUCT };
            b.push(0xf0 | e);
            put_varint(&mut b, k);
            for _ in 0..k {
                b.push(0);
            }
            let ops = ops_by_name(name);
            let spare = if c.w_half() { 2 } else { 2 * k };
            return c10_run(c, ops, b, 8 * k + spare);
        }
        _ => (hostile(c, ops), 300),
    };
    let _ = total;
    c10_run(c, ops, bytes, total)
}

/// A long collection under a field id nobody knows, and about what it costs; what is skipped is not held.
fn long_unknown(t: &mut Tape) -> (Vec<u8>, u64) {
    let k = if t.chance(1, 6) { t.range(1000, 20_000) } else { t.range(100, 1500) };
    let (ty, elem): (u8, &[u8]) = t.pick(&[
        (1, &[1u8][..]),
        (3, &[7]),
        (5, &[2]),
        (7, &[0, 0, 0, 0, 0, 0, 0, 0]),
        (8, &[0]),
        (8, &[3, 97, 98, 99]),
        (9, &[0x03]),
        (9, &[0x13, 1]),
        (10, &[0x13, 1]),
        (11, &[0]),
        (11, &[1, 0x33, 1, 2]),
        (12, &[0]),
        (12, &[0x13, 1, 0]),
    ]);
    let mut b = vec![];
    let as_map = t.chance(1, 3);
    b.push(if as_map { 11 } else { t.pick(&[9u8, 10]) });
    b.extend(encode(&Val::I16(t.pick(&[77i16, 300, -5]))));
    if as_map {
        put_varint(&mut b, k);
        b.push(ty << 4 | ty);
    } else {
        b.push(0xf0 | ty);
        put_varint(&mut b, k);
    }
    let reps = if as_map { 2 * k } else { k };
    for _ in 0..reps {
        b.extend_from_slice(elem);
    }
    let whole = t.chance(1, 2);
    if whole {
        b.push(0);
    }
    // entries cost eight each, structs two
    let n = b.len() as u64 + reps * if ty >= 9 { 16 } else { 8 };
    (b, n)
}

impl Ctx {
    fn w_half(&mut self) -> bool {
        self.w.chance(1, 2)
    }
}

fn c10_run(c: &mut Ctx, ops: &'static Ops, bytes: Vec<u8>, total: u64) -> R<()> {
    let limit = match c.w.draw(6) {
        0 => total as usize,
        1 => (total as usize).saturating_sub(1),
        2 => c.w.draw(2 * total + 16) as usize,
        3 => c.w.pick(&[0, 10, 100, 1000, 10_000]),
        4 => 1 << c.w.range(4, 20),
        _ => 1 << 20,
    };
    c.world.note(|| format!("{} limit {} stream {}", ops.name, limit, hex(&bytes)));
    for how in HOWS {
        let cfg = Cfg::draw(&c.world);
        let src = SimReader::new(&c.world, 2, bytes.clone(), cfg);
        alloc::reset();
        let mut s = ReadSession::new(how, &src, limit);
        let r = s.value(ops)?;
        let peak = alloc::peak();
        c.world.with(|w| {
            let k = if r.is_ok() { "peak_ok_over_fixed" } else { "peak_err_over_fixed" };
            if peak > FIXED {
                *w.probes.entry(k).or_insert(0) += 1
            }
            let m = w.probes.entry("max_small_peak").or_insert(0);
            if limit < 64 {
                *m = (*m).max(peak as u64);
            }
        });
        let bound = PER_BYTE.saturating_mul(limit as i64).saturating_add(FIXED);
        ensure!(
            peak <= bound,
            "memory",
            "{:?} read of {} with a limit of {} bytes held {} bytes (bound {}); stream {}",
            how, ops.name, limit, peak, bound, hex(&bytes)
        );
        settle(s, r, ops.name, how)?;
    }
    Ok(())
}

/// The same bound for what is not a value.
fn c10_other(c: &mut Ctx) -> R<()> {
    let ops = pick_ops(&mut c.w);
    let mut bytes = if c.w.chance(1, 3) { message_header("", 1, 0) } else { vec![] };
    if c.w.chance(1, 2) {
        // a hostile size at once
        let n = c.w.pick(&[0xffff_ffffu64, 0x7fff_ffff, 1 << 28, 1 << 24, 1 << 20]);
        if c.w.chance(1, 2) {
            bytes.push(0xf0 | c.w.range(1, 12) as u8);
        } else if !bytes.is_empty() {
            bytes.pop();
        }
        put_varint(&mut bytes, n);
        bytes.extend_from_slice(&[1; 40]);
    } else {
        bytes.extend(hostile(c, ops));
    }
    let limit = c.w.pick(&[0usize, 10, 100, 1000, 10_000, 1 << 16]);
    let how = pick_how(&mut c.w);
    let src = SimReader::new(&c.world, 3, bytes.clone(), Cfg::draw(&c.world));
    c.world.note(|| format!("limit {} stream {}", limit, hex(&bytes)));
    // what the simulation itself holds is not counted
    alloc::reset();
    other_reads(c, how, &src, limit)?;
    let peak = alloc::peak();
    let bound = PER_BYTE.saturating_mul(limit as i64).saturating_add(FIXED);
    ensure!(peak <= bound, "memory", "{:?} reads of elements with a limit of {} bytes held {} bytes (bound {}); stream {}", how, limit, peak, bound, hex(&bytes));
    Ok(())
}

/// Allocations sized by hostile declared sizes fail.
fn c10_declared(c: &mut Ctx) -> R<()> {
    let ops = pick_ops(&mut c.w);
    let bytes = size_bomb(&mut c.w, ops);
    let limit = c.w.pick(&[usize::MAX, usize::MAX, 1 << 40, 1 << 30, 1 << 24]);
    for how in HOWS {
        let nth = 1 + c.world.draw(2);
        let inject = c.world.chance(3, 4);
        let src = SimReader::new(&c.world, 2, bytes.clone(), Cfg::draw(&c.world));
        c.world.note(|| format!("{:?} {} limit {}: allocation {} of at least {} fails: {}; stream {}", how, ops.name, limit, nth, BIG, inject, hex(&bytes)));
        alloc::reset();
        let mut s = ReadSession::new(how, &src, limit);
        if inject {
            alloc::fail(BIG, nth);
        }
        let r = s.value(ops);
        let (failed, refused) = (alloc::failed(), alloc::refused());
        alloc::fail(usize::MAX, 0);
        let r = r?;
        if failed > 0 {
            c.world.fault("alloc_failure");
        }
        if refused > 0 {
            c.world.fault("alloc_refused");
        }
        if failed + refused > 0 {
            ensure!(r.is_err(), "value-without-memory", "{:?} read of {} returned a value although an allocation failed; stream {}", how, ops.name, hex(&bytes));
        }
        settle(s, r, ops.name, how)?;
    }
    Ok(())
}

/// Allocations sized by honest declared sizes fail.
fn c10_content(c: &mut Ctx) -> R<()> {
    if c.w.chance(1, 30) {
        return c10_long_list(c);
    }
    let n = c.w.pick(&[BIG, BIG + 1, BIG - 1, 3 * BIG / 2, 2 * BIG]);
    let place = c.w.draw(4);
    let content = vec![b'q'; n];
    let (ops, tree) = match place {
        0 => (ops_by_name("KeyValue"), Val::Struct(vec![(1, Val::Bytes(content)), (2, Val::Bytes(vec![b'v'; n]))])),
        1 => (ops_by_name("Statistics"), Val::Struct(vec![(1, Val::Bytes(content.clone())), (5, Val::Bytes(content))])),
        2 => (ops_by_name("KeyValue"), Val::Struct(vec![(1, Val::Bytes(b"k".to_vec())), (77, Val::Bytes(content))])),
        _ => (
            ops_by_name("ColumnIndex"),
            Val::Struct(vec![
                (1, Val::List(T_BOOL, vec![Val::Bool(true)])),
                (2, Val::List(T_BYTES, vec![Val::Bytes(content.clone()), Val::Bytes(content)])),
                (3, Val::List(T_BYTES, vec![])),
                (4, Val::I32(0)),
            ]),
        ),
    };
    let mut bytes = encode(&tree);
    let torn = c.w.chance(1, 4);
    if torn {
        let cut = c.w.draw(bytes.len() as u64) as usize;
        bytes.truncate(cut);
    }
    let limit = c.w.pick(&[usize::MAX, 8 * BIG]);
    for how in HOWS {
        let nth = 1 + c.world.draw(3);
        let cfg = Cfg { pend: 1, ..Cfg::PLAIN };
        let src = SimReader::new(&c.world, 2, bytes.clone(), cfg);
        c.world.note(|| format!("{:?} {} with {} byte contents: allocation {} of at least {} fails", how, ops.name, n, nth, BIG));
        alloc::reset();
        let mut s = ReadSession::new(how, &src, limit);
        alloc::fail(BIG - 1, nth);
        let r = s.value(ops);
        let failed = alloc::failed();
        alloc::fail(usize::MAX, 0);
        let r = r?;
        if failed > 0 {
            c.world.fault("alloc_failure");
            ensure!(r.is_err(), "value-without-memory", "{:?} read of {} returned a value although allocation {} failed", how, ops.name, nth);
        } else if !torn {
            ensure!(r.is_ok(), "refused", "{:?} read of {} gave {:?} although no allocation failed", how, ops.name, r.as_ref().err());
        }
        settle(s, r, ops.name, how)?;
    }
    Ok(())
}

/// An honest list of so many entries that its memory is `LONG` bytes or more, and so is any other
/// memory sized by it: each such allocation may fail.
fn c10_long_list(c: &mut Ctx) -> R<()> {
    const LONG: usize = 8192;
    let mut ops = ops_by_name("FileMetaData");
    for _ in 0..20 {
        let o = pick_ops(&mut c.w);
        if (o.def)().fields.iter().any(|f| matches!(f.ty, Ty::List(_))) {
            ops = o;
            break;
        }
    }
    let mut tree = gen_value(&mut c.w, ops, Size::Small).tree();
    let lists: Vec<_> = (ops.def)().fields.iter().filter(|f| matches!(f.ty, Ty::List(_))).collect();
    let f = lists[c.w.draw(lists.len() as u64) as usize];
    if let (Val::Struct(fs), Ty::List(e)) = (&mut tree, &f.ty) {
        let x = gen_tree(e, &mut Gen::new(&mut c.w, 6, false));
        let k = c.w.range(LONG as u64, LONG as u64 + 200) as usize;
        fs.retain(|y| y.0 != f.id);
        fs.push((f.id, Val::List(x.ty(), vec![x; k])));
        fs.sort_by_key(|y| y.0);
    }
    let bytes = encode(&tree);
    for how in HOWS {
        let nth = 1 + c.world.draw(3);
        let cfg = Cfg { pend: 1, ..Cfg::PLAIN };
        let src = SimReader::new(&c.world, 2, bytes.clone(), cfg);
        c.world.note(|| format!("{:?} {} with a long list in field {}: allocation {} of at least {} fails", how, ops.name, f.id, nth, LONG));
        alloc::reset();
        let mut s = ReadSession::new(how, &src, usize::MAX);
        alloc::fail(LONG, nth);
        let r = s.value(ops);
        let failed = alloc::failed();
        alloc::fail(usize::MAX, 0);
        let r = r?;
        if failed > 0 {
            c.world.fault("alloc_failure");
            ensure!(r.is_err(), "value-without-memory", "{:?} read of {} returned a value although allocation {} failed", how, ops.name, nth);
        } else {
            ensure!(r.is_ok(), "refused", "{:?} read of {} with a long list gave {:?} although no allocation failed", how, ops.name, r.as_ref().err());
        }
        settle(s, r, ops.name, how)?;
    }
    Ok(())
}

pub fn c11(c: &mut Ctx) -> R<()> {
    if c.w.chance(1, 3) {
        return c11_elements(c);
    }
    // several values through one reader
    let n = c.w.range(1, 4);
    let mut stream = vec![];
    let mut charges: Vec<Charge> = vec![];
    let mut items: Vec<(&'static Ops, DynVal, usize, usize)> = vec![]; // .., end, charges so far
    for i in 0..n {
        let ops = pick_ops(&mut c.w);
        let v = gen_value(&mut c.w, ops, if i == 0 { Size::Medium } else { Size::Small });
        let mut tree = v.tree();
        if !(ops.def)().union && c.w.chance(1, 3) {
            // unknown content is charged all the same
            if let Val::Struct(fs) = &mut tree {
                let mut g = AnyGen { depth: 3, budget: 30, utf8: true };
                let ty = g.ty(&mut c.w, false);
                let x = g.val(&mut c.w, ty, 0);
                let at = c.w.draw(fs.len() as u64 + 1) as usize;
                fs.insert(at, (300, x));
            }
        }
        let base = stream.len();
        let (b, ch) = foreign(&mut c.w, &tree);
        charges.extend(ch.iter().map(|x| Charge { pos: x.pos + base, amount: x.amount }));
        stream.extend(b);
        items.push((ops, v, stream.len(), charges.len()));
    }
    stream.extend_from_slice(&[0x33; 4]);
    let limit = pick_limit(&mut c.w, &charges.iter().map(|x| x.amount).collect::<Vec<_>>());
    // the first charge beyond the limit
    let mut left = limit;
    let mut refuse: Option<usize> = None;
    for (i, ch) in charges.iter().enumerate() {
        if ch.amount > left {
            refuse = Some(i);
            break;
        }
        left -= ch.amount;
    }
    c.world.probe(if refuse.is_some() { "limit_hit" } else { "limit_not_hit" });
    for how in HOWS {
        let src = SimReader::new(&c.world, 2, stream.clone(), Cfg::draw(&c.world).no_eintr());
        let mut s = ReadSession::new(how, &src, limit as usize);
        let mut refused = false;
        for (ops, v, end, upto) in &items {
            let hit = refuse.map_or(false, |i| i < *upto);
            match s.value(ops)? {
                Ok(w) => {
                    ensure!(!hit, "limit-not-enforced", "{:?} read of {} within a limit of {} succeeded, although charge {:?} exceeds the {} left", how, ops.name, limit, charges[refuse.unwrap()], left);
                    ensure!(w.same(&**v), "wrong-value", "{:?} read of {} under a sufficient limit of {}: {} instead of {}", how, ops.name, limit, w.tree().brief(), v.tree().brief());
                    ensure!(src.pos() == *end, "consumption", "{:?} read of {}: position {} instead of {}", how, ops.name, src.pos(), end);
                }
                Err(k) => {
                    ensure!(hit, "limit-too-strict", "{:?} read of {} under a sufficient limit of {} gave {:?}", how, ops.name, limit, k);
                    let ch = charges[refuse.unwrap()];
                    ensure!(k == LIMIT_KIND, "wrong-kind", "{:?} read of {} beyond a limit of {}: {:?} instead of the size limit", how, ops.name, limit, k);
                    ensure!(src.pos() <= ch.pos, "consumed-beyond-limit", "{:?} read of {} with a limit of {}: refused at byte {}, the refused content starts at {}", how, ops.name, limit, src.pos(), ch.pos);
                    let prev = refuse.unwrap().checked_sub(1).map_or(0, |i| charges[i].pos);
                    ensure!(src.pos() >= prev, "refused-early", "{:?} read of {} with a limit of {}: refused at byte {} although charges up to byte {} fit", how, ops.name, limit, src.pos(), prev);
                    refused = true;
                    break;
                }
            }
        }
        if refused {
            // what is left stays charged: no more structs can be entered than fit into it
            let mut entered = 0u64;
            for _ in 0..(left / 2 + 3).min(40) {
                match s.elem(&El::StructBegin)? {
                    Ok(_) => entered += 1,
                    Err(_) => break,
                }
            }
            ensure!(entered <= left / 2, "limit-reset", "{:?}: after a refusal with {} bytes left, {} more structs were entered", how, left, entered);
        }
    }
    Ok(())
}

fn pick_limit(t: &mut Tape, charges: &[u64]) -> u64 {
    let total: u64 = charges.iter().sum();
    match t.draw(6) {
        0 => total,
        1 => total.saturating_sub(1),
        2 => total + t.range(1, 50),
        _ if charges.is_empty() => 0,
        3 => t.draw(total + 2),
        _ => {
            let i = t.draw(charges.len() as u64) as usize;
            let cum: u64 = charges[..=i].iter().sum();
            (cum + t.draw(3)).saturating_sub(1)
        }
    }
}

fn c11_elements(c: &mut Ctx) -> R<()> {
    let prog = program(&mut c.w, true);
    let bytes = super::reads::elem_bytes(&prog);
    let cost = El::charge;
    let limit = pick_limit(&mut c.w, &prog.iter().map(cost).filter(|x| *x > 0).collect::<Vec<_>>());
    for how in HOWS {
        let src = SimReader::new(&c.world, 2, bytes.clone(), Cfg::draw(&c.world).no_eintr());
        let mut s = ReadSession::new(how, &src, limit as usize);
        let mut left = limit;
        for op in &prog {
            let before = src.pos();
            let n = cost(op);
            match s.elem(op)? {
                Ok(g) => {
                    ensure!(n <= left, "limit-not-enforced", "{:?} read of {:?} costs {} with {} of {} left, and succeeded", how, op, n, left, limit);
                    ensure!(g == op.expect(), "wrong-element", "{:?} read of {:?} gave {:?}", how, op, g);
                    left -= n;
                }
                Err(k) => {
                    ensure!(n > left, "limit-too-strict", "{:?} read of {:?} costs {} with {} of {} left, and gave {:?}", how, op, n, left, limit, k);
                    ensure!(k == LIMIT_KIND, "wrong-kind", "{:?} read of {:?} beyond the limit: {:?}", how, op, k);
                    let content = match op {
                        El::Bytes(b) => b.len(),
                        El::Str(b) => b.len(),
                        El::MsgBegin(b, ..) => b.len(),
                        _ => 0,
                    };
                    let header = super::reads::elem_bytes(std::slice::from_ref(op)).len() - content;
                    ensure!(src.pos() <= before + header, "consumed-beyond-limit", "{:?} read of {:?} was refused after consuming {} bytes, its header has {}", how, op, src.pos() - before, header);
                    break;
                }
            }
        }
    }
    Ok(())
}

/// A peer that never stops sending.
pub fn c21(c: &mut Ctx) -> R<()> {
    if c.w.chance(1, 8) {
        return c21_other(c);
    }
    let limit = match c.w.draw(4) {
        0 => c.w.draw(50),
        1 => c.w.draw(1000),
        2 => c.w.draw(20_000),
        _ => 1 << c.w.draw(16),
    } as usize;
    let t = &mut c.w;
    let shape = t.weighted(&[3, 5, 3, 3, 2, 2, 1]);
    let limit = if shape == 5 { limit.min(2000) } else { limit };
    let bound = 64 * limit + 128 * 1024;
    let mut ops = pick_ops(t);
    let mut prefix: Vec<u8> = vec![];
    let mut unit: Vec<u8> = vec![];
    let mut free = false;
    let mut repeat = false;
    match shape {
        0 => {
            // content without end behind a large declared size
            let mut b = size_bomb(t, ops);
            // the declared size only
            if t.chance(1, 2) {
                let v = gen_value(t, ops, Size::Small);
                if let Val::Struct(fs) = v.tree() {
                    let mut e = encode(&Val::Struct(fs));
                    e.pop();
                    e.extend(&b);
                    b = e;
                }
            }
            prefix = b;
            unit = t.pick::<&[u8]>(&[&[0x61], &[0x00], &[0x15], &[0x1c], &[0x18, 0x01, 0x61]]).to_vec();
            // (if the tail is taken for fields, in any phase, they are charged or have short-form
            // ids, which run out: fields that cost nothing are left to the last shape)
        }
        1 => {
            // further fields without end, long-form ids so that they never run out
            let n = t.range(1, 4);
            let mut cost = 0;
            for _ in 0..n {
                let mut g = AnyGen { depth: 2, budget: 6, utf8: true };
                let v = match t.draw(4) {
                    0 => Val::Struct(vec![]),
                    1 => Val::Bytes(vec![b'x'; t.range(1, 9) as usize]),
                    2 => Val::List(T_I8, vec![Val::I8(1)]),
                    _ => {
                        let ty = g.ty(t, false);
                        g.val(t, ty, 0)
                    }
                };
                let id = t.pick(&[100i16, 300, -5, 32767, 127]);
                field(&mut unit, id, &v);
                let mut e = Enc::new(Forms::default(), t);
                e.val(&v);
                cost += e.charges.iter().map(|x| x.amount).sum::<u64>();
            }
            if unit.len() > 50 {
                unit.clear();
                cost = 0;
            }
            if cost == 0 {
                field(&mut unit, 99, &Val::Struct(vec![]));
            }
        }
        2 => {
            // the same known field again and again
            let (name, id, v): (&str, i16, Val) = match t.draw(6) {
                0 => ("KeyValue", 1, Val::Bytes(b"k".to_vec())),
                1 => ("FileMetaData", 6, Val::Bytes(b"created".to_vec())),
                2 => ("FileMetaData", 7, Val::List(T_STRUCT, vec![Val::Struct(vec![(1, Val::Struct(vec![]))])])),
                3 => ("ColumnIndex", 1, Val::List(T_BOOL, vec![Val::Bool(true); 3])),
                4 => ("PageHeader", 6, Val::Struct(vec![])),
                _ => ("ColumnMetaData", 3, Val::List(T_BYTES, vec![Val::Bytes(vec![])])),
            };
            ops = ops_by_name(name);
            field(&mut unit, id, &v);
        }
        3 => {
            // entries without end behind the largest count the limit admits
            let (name, id, e, entry): (&str, i16, u8, Vec<u8>) = match t.draw(5) {
                0 => ("OffsetIndex", 1, T_STRUCT, vec![0x16, 2, 0x15, 2, 0x16, 2, 0]),
                1 => ("ColumnIndex", 1, T_BOOL, vec![1]),
                2 => ("ColumnIndex", 5, T_I64, vec![2]),
                3 => ("FileMetaData", 7, T_STRUCT, vec![0x1c, 0, 0]),
                _ => ("ColumnIndex", 2, T_BYTES, vec![1, 0x61]),
            };
            ops = ops_by_name(name);
            prefix = vec![0x09];
            prefix.extend(encode(&Val::I16(id)));
            prefix.push(0xf0 | e);
            if t.chance(1, 2) {
                put_varint(&mut prefix, (limit / 8) as u64 + 1);
                unit = entry;
            } else {
                let n = limit / 8;
                put_varint(&mut prefix, n as u64);
                for _ in 0..n {
                    prefix.extend_from_slice(&entry);
                }
                unit = vec![0];
            }
        }
        4 => {
            // deeper and deeper
            prefix = vec![0x0c, 0xc8, 0x01];
            unit = t.pick::<&[u8]>(&[&[0x1c], &[0x19], &[0x01, 0xbb], &[0x0c, 0xc8, 0x01]]).to_vec();
        }
        5 => {
            // value after value through one reader
            repeat = true;
            let v = gen_value(t, ops, Size::Small);
            unit = foreign(t, &v.tree()).0;
        }
        _ => {
            // fields that cost nothing
            free = true;
            let v = match t.draw(5) {
                0 => Val::I32(1),
                1 => Val::Bool(true),
                2 => Val::Bytes(vec![]),
                3 => Val::List(T_I8, vec![]),
                _ => Val::Map(0, 0, vec![]),
            };
            field(&mut unit, 100, &v);
        }
    }
    c.world.fault("endless_peer");
    c.world.note(|| format!("{} limit {} shape {} prefix {} unit {}", ops.name, limit, shape, hex(&prefix), hex(&unit)));
    for how in HOWS {
        let mut cfg = Cfg::draw(&c.world).no_eintr();
        if how == How::Async && limit > 300 {
            cfg.pend = cfg.pend.min(1);
        }
        let src = SimReader::new(&c.world, 2, prefix.clone(), cfg);
        {
            let mut g = src.get();
            g.endless = Some(unit.clone());
            // a value of the repeating shape is finite; the bound grows by its length
            g.max_pos = bound + prefix.len() + if repeat { unit.len() * (limit / 2 + 2) } else { 0 };
        }
        let mut s = ReadSession::new(how, &src, limit);
        let mut reads = 0;
        let r = loop {
            reads += 1;
            match s.value(ops) {
                Ok(Ok(_)) if reads <= limit / 2 + 2 => continue,
                Ok(Ok(_)) => break fail("not-cut-off", format!("{:?}: {} values of {} were read under a limit of {} bytes", how, reads, ops.name, limit)),
                Ok(Err(k)) => break Ok(k),
                Err(v) => break Err(v),
            }
        };
        match r {
            Ok(k) => {
                if k == LIMIT_KIND {
                    c.world.probe("cut_off_by_limit")
                } else {
                    c.world.probe("cut_off_otherwise")
                }
            }
            Err(v) if v.class == "runaway" && free => {
                return fail("endless-charge-free", format!("{:?} read of {} with a limit of {} bytes: {} (fields that are charged nothing: {})", how, ops.name, limit, v.msg, hex(&unit)));
            }
            Err(v) => return fail(if v.class == "runaway" { "not-cut-off" } else { &v.class }, format!("{:?} read of {} with a limit of {} bytes (unit {}): {}", how, ops.name, limit, hex(&unit), v.msg)),
        }
    }
    Ok(())
}

/// The same without values: messages, application errors, lists and skipped content.
fn c21_other(c: &mut Ctx) -> R<()> {
    let limit = match c.w.draw(3) {
        0 => c.w.draw(50),
        1 => c.w.draw(1000),
        _ => 1 << c.w.draw(15),
    } as usize;
    let bound = 64 * limit + 128 * 1024;
    let t = &mut c.w;
    let many = t.pick(&[0xffff_ffffu64, 0x7fff_ffff, 1 << 20, limit as u64 / 8, limit as u64 + 1]);
    let mut prefix = vec![];
    let mut unit: Vec<u8>;
    let shape = t.draw(5);
    let mut e = ListOf::Byte;
    let mut ty = T_STRUCT;
    match shape {
        0 => {
            // the name of a message
            prefix = message_header("", 1, 7);
            prefix.pop();
            put_varint(&mut prefix, many);
            unit = vec![b'n'];
        }
        1 => {
            // an application error whose fields never end
            unit = vec![];
            for _ in 0..t.range(1, 3) {
                match t.draw(3) {
                    0 => field(&mut unit, 2, &Val::I32(3)),
                    1 => field(&mut unit, 50, &Val::List(T_I32, vec![Val::I32(1); 2])),
                    _ => {}
                }
            }
            field(&mut unit, t.pick(&[1, 1, 9]), &Val::Bytes(vec![b'm'; t.range(1, 20) as usize]));
        }
        2 => {
            let (l, code, entry) = t.pick::<(ListOf, u8, &[u8])>(&[
                (ListOf::Bool, 1, &[1]),
                (ListOf::Byte, 3, &[7]),
                (ListOf::I64, 6, &[0x80, 1]),
                (ListOf::Str, 8, &[1, 0x61]),
                (ListOf::Bin, 8, &[0]),
            ]);
            e = l;
            prefix.push(0xf0 | code);
            put_varint(&mut prefix, many);
            unit = entry.to_vec();
        }
        3 => {
            // skipped collections
            let (code, entry) = t.pick::<(u8, &[u8])>(&[(1, &[2]), (3, &[7]), (7, &[1]), (8, &[1, 0x61]), (0xc, &[0]), (9, &[0x13, 0]), (0xb, &[0])]);
            ty = t.pick(&[T_LIST, T_SET, T_MAP]);
            if ty == T_MAP {
                put_varint(&mut prefix, many);
                prefix.push(code << 4 | code);
            } else {
                prefix.push(0xf0 | code);
                put_varint(&mut prefix, many);
            }
            unit = entry.to_vec();
        }
        _ => {
            // a skipped struct whose fields never end
            unit = vec![];
            field(&mut unit, 3, &Val::Struct(vec![(1, Val::Bool(true))]));
        }
    }
    c.world.fault("endless_peer");
    c.world.note(|| format!("limit {} shape {} prefix {} unit {}", limit, shape, hex(&prefix), hex(&unit)));
    for how in HOWS {
        if shape == 1 && how == How::Async {
            continue;
        }
        let mut cfg = Cfg::draw(&c.world).no_eintr();
        if how == How::Async && limit > 300 {
            cfg.pend = cfg.pend.min(1);
        }
        let src = SimReader::new(&c.world, 2, prefix.clone(), cfg);
        {
            let mut g = src.get();
            g.endless = Some(unit.clone());
            g.max_pos = bound + prefix.len();
        }
        let r = if shape == 1 {
            super::elem::app_read(how, &src, limit).map(|r| r.map(|_| ()))
        } else {
            let mut s = ReadSession::new(how, &src, limit);
            match shape {
                0 => s.elem(&El::MsgBegin(String::new(), 1, 0)).map(|r| r.map(|_| ())),
                2 => s.list(e).map(|r| r.map(|_| ())),
                3 => s.skip(ttype(ty), None),
                _ => s.skip(ttype(T_STRUCT), None),
            }
        };
        // a count within the limit ends by itself
        let fits = many <= limit as u64 && shape != 1 && shape != 4;
        match r {
            Ok(Err(_)) => c.world.probe("cut_off_otherwise"),
            Ok(Ok(())) => ensure!(fits, "not-cut-off", "{:?} read of shape {} succeeded under a limit of {} bytes (declared {})", how, shape, limit, many),
            Err(v) => return fail(if v.class == "runaway" { "not-cut-off" } else { &v.class }, format!("{:?} read of shape {} with a limit of {} bytes (unit {}): {}", how, shape, limit, hex(&unit), v.msg)),
        }
    }
    Ok(())
}

/// A field with a long-form id.
fn field(out: &mut Vec<u8>, id: i16, v: &Val) {
    let code = match v {
        Val::Bool(true) => 1,
        Val::Bool(false) => 2,
        v => v.ty(),
    };
    out.push(code);
    out.extend(encode(&Val::I16(id)));
    if !matches!(v, Val::Bool(_)) {
        out.extend(encode(v));
    }
}
