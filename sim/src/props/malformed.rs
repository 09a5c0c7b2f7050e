//! C26: malformed content is refused, never repaired.
use super::elem::app_read;
use super::reads::{forms, foreign, read_one, unknown_content};
use super::Ctx;
use crate::drive::*;
use crate::ensure;
use crate::exec::{fail, R};
use crate::io::*;
use crate::schema::*;
use crate::tape::Tape;
use crate::val::*;
use parquet_format_safe::thrift::ProtocolErrorKind as P;

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    /// a field header: the low half of its first byte is a type code
    Field,
    /// a list or set header: the low half of its first byte is a type code
    Coll,
    /// the types of a map: both halves are type codes
    MapTypes,
    Varint(u32),
    /// a boolean element
    Bool,
    /// the content of a string (not binary) of the schema
    Str,
    /// the end of a struct; the last field id in it
    Stop(i16),
}
#[derive(Clone, Copy, Debug)]
struct Tok {
    at: usize,
    len: usize,
    t: T,
}

/// Where the elements of a well-formed stream are.
struct Walk<'a> {
    b: &'a [u8],
    i: usize,
    toks: Vec<Tok>,
}
impl Walk<'_> {
    fn tok(&mut self, at: usize, t: T) {
        self.toks.push(Tok { at, len: self.i - at, t });
    }
    fn varint(&mut self, bits: u32) -> u64 {
        let at = self.i;
        let mut v = 0u64;
        loop {
            let b = self.b[self.i];
            v |= ((b & 0x7f) as u64) << (7 * (self.i - at));
            self.i += 1;
            if b & 0x80 == 0 {
                break;
            }
        }
        self.tok(at, T::Varint(bits));
        v
    }
    fn val(&mut self, ty: u8, sch: Option<&Ty>) {
        match ty {
            1 | 2 => {
                self.i += 1;
                self.tok(self.i - 1, T::Bool);
            }
            T_I8 => self.i += 1,
            T_I16 => drop(self.varint(16)),
            T_I32 => drop(self.varint(32)),
            T_I64 => drop(self.varint(64)),
            T_DOUBLE => self.i += 8,
            T_BYTES => {
                let n = self.varint(32) as usize;
                self.i += n;
                if matches!(sch, Some(Ty::Str)) && n > 0 {
                    self.tok(self.i - n, T::Str);
                }
            }
            T_LIST | T_SET => {
                let h = self.b[self.i];
                let at = self.i;
                self.i += 1;
                let n = if h >> 4 == 15 { self.varint(32) } else { (h >> 4) as u64 };
                self.tok(at, T::Coll);
                let e = match sch {
                    Some(Ty::List(e)) => Some(&**e),
                    _ => None,
                };
                for _ in 0..n {
                    self.val(h & 15, e);
                }
            }
            T_MAP => {
                let n = self.varint(32);
                if n > 0 {
                    let h = self.b[self.i];
                    self.i += 1;
                    self.tok(self.i - 1, T::MapTypes);
                    for _ in 0..n {
                        self.val(h >> 4, None);
                        self.val(h & 15, None);
                    }
                }
            }
            _ => {
                let mut last = 0i16;
                loop {
                    let at = self.i;
                    let h = self.b[self.i];
                    self.i += 1;
                    if h == 0 {
                        self.tok(at, T::Stop(last));
                        return;
                    }
                    if h >> 4 != 0 {
                        last += (h >> 4) as i16;
                    } else {
                        let u = self.varint(16);
                        last = if u & 1 == 0 { u >> 1 } else { !(u >> 1) } as i16;
                    }
                    self.tok(at, T::Field);
                    let e = match sch {
                        Some(Ty::Struct(d)) => d.fields.iter().find(|f| f.id == last).map(|f| &f.ty),
                        _ => None,
                    };
                    if h & 15 > 2 {
                        self.val(h & 15, e);
                    }
                }
            }
        }
    }
}
fn toks(b: &[u8], ty: u8, sch: Option<&Ty>) -> Vec<Tok> {
    let mut w = Walk { b, i: 0, toks: vec![] };
    w.val(ty, sch);
    w.toks
}

/// Make `b` invalid UTF-8, keeping its length.
fn spoil_utf8(t: &mut Tape, b: &mut [u8]) -> &'static str {
    const BAD: [(&str, &[u8]); 12] = [
        ("a lone continuation byte", &[0x80]),
        ("a byte that UTF-8 never uses", &[0xff]),
        ("an overlong two-byte form", &[0xc0, 0xaf]),
        ("an overlong three-byte form", &[0xe0, 0x80, 0xaf]),
        ("an overlong four-byte form", &[0xf0, 0x80, 0x80, 0xaf]),
        ("a surrogate", &[0xed, 0xa0, 0x80]),
        ("a surrogate pair", &[0xed, 0xa0, 0x81, 0xed, 0xb0, 0x80]),
        ("a code point past the last", &[0xf4, 0x90, 0x80, 0x80]),
        ("a five-byte form", &[0xf8, 0x88, 0x80, 0x80, 0x80]),
        ("a sequence broken off", &[0xe2, 0x82, 0x41]),
        ("a sequence broken off", &[0xc3]),
        ("an encoded zero", &[0xc0, 0x80]),
    ];
    let fit: Vec<_> = BAD.iter().filter(|x| x.1.len() <= b.len()).collect();
    let x = fit[t.draw(fit.len() as u64) as usize];
    let room = b.len() - x.1.len();
    let at = match t.draw(3) {
        0 => room,
        1 => 0,
        _ => t.draw(room as u64 + 1) as usize,
    };
    b.fill(b'k');
    b[at..at + x.1.len()].copy_from_slice(x.1);
    assert!(std::str::from_utf8(b).is_err());
    x.0
}

fn bad_type(t: &mut Tape) -> u8 {
    t.pick(&[13, 14, 15])
}
fn zz16(x: i16) -> u64 {
    (((x as i32) << 1) ^ ((x as i32) >> 31)) as u32 as u64
}

/// Spoil one element of a well-formed stream. Returns the new stream, what was done, the end of the
/// spoiled element and the required kind of error (if the crate names one).
fn spoil(t: &mut Tape, b: &[u8], toks: &[Tok]) -> Option<(Vec<u8>, String, usize, Option<Kind>)> {
    // first a class of elements, then one of it
    let class = |k: &T| match k {
        T::Field => 0,
        T::Coll => 1,
        T::MapTypes => 2,
        T::Varint(_) => 3,
        T::Bool => 4,
        T::Str => 5,
        T::Stop(_) => 6,
    };
    let mut present: Vec<usize> = toks.iter().map(|k| class(&k.t)).collect();
    present.sort();
    present.dedup();
    if present.is_empty() {
        return None;
    }
    let want = t.pick(&present);
    let of: Vec<Tok> = toks.iter().filter(|k| class(&k.t) == want).copied().collect();
    let k = t.pick(&of);
    let mut o = b.to_vec();
    let invalid = Some(Kind::P(P::InvalidData));
    Some(match k.t {
        T::Field | T::Coll => {
            let x = bad_type(t);
            o[k.at] = (o[k.at] & 0xf0) | x;
            (o, format!("type code {} in the {} header at {}", x, if k.t == T::Field { "field" } else { "collection" }, k.at), k.at + k.len, invalid)
        }
        T::MapTypes => {
            let x = bad_type(t);
            let key = t.chance(1, 2);
            o[k.at] = if key { (o[k.at] & 0x0f) | (x << 4) } else { (o[k.at] & 0xf0) | x };
            (o, format!("type code {} for the {} of the map at {}", x, if key { "keys" } else { "values" }, k.at), k.at + 1, invalid)
        }
        T::Bool => {
            let x = t.pick(&[3u8, 4, 0x80, 0xff, 0x10, 0x11, 0x12, 0x20, 0x81]);
            o[k.at] = x;
            (o, format!("boolean {} at {}", x, k.at), k.at + 1, invalid)
        }
        T::Str => {
            let why = spoil_utf8(t, &mut o[k.at..k.at + k.len]);
            (o, format!("{} in the string at {}", why, k.at), k.at + k.len, invalid)
        }
        T::Varint(bits) => {
            let max = (bits as usize + 6) / 7;
            let n = max + t.draw(3) as usize;
            let mut x: Vec<u8> = b[k.at..k.at + k.len].iter().map(|y| y | 0x80).collect();
            x.resize(n, t.pick(&[0x80, 0x80, 0xff, 0x81]));
            x.push(t.pick(&[0, 0, 1, 0x7f]));
            let l = x.len();
            o.splice(k.at..k.at + k.len, x);
            (o, format!("a varint of {} bytes for {} bits at {}", l, bits, k.at), k.at + max + 1, None)
        }
        T::Stop(last) => {
            // a field id past the largest one
            let step = t.range(1, 15) as i16;
            let id = i16::MAX - t.draw(step as u64) as i16;
            let mut x = vec![];
            if last != id {
                if id as i32 - last as i32 >= 1 && id as i32 - last as i32 <= 15 {
                    x.push(((id - last) as u8) << 4 | T_I8);
                } else {
                    x.push(T_I8);
                    put_varint(&mut x, zz16(id));
                }
                x.push(7);
            }
            let end = k.at + x.len() + 1;
            x.push((step as u8) << 4 | T_I8);
            x.push(9);
            o.splice(k.at..k.at, x);
            (o, format!("field id {} + {} at {}", id, step, end - 1), end, None)
        }
    })
}

fn judge<X>(r: &Out<X>, src: &SimReader, how: How, what: &str, end: usize, kind: Option<Kind>, b: &[u8], shown: impl Fn(&X) -> String) -> R<()> {
    match r {
        Ok(v) => return fail("repaired", format!("{:?} read of a stream with {} gave {}; stream {}", how, what, shown(v), hex(b))),
        Err(k) => {
            ensure!(*k != EOF_KIND, "wrong-kind", "{:?} read of a stream with {}: {:?}; stream {}", how, what, k, hex(b));
            if let Some(w) = kind {
                ensure!(*k == w, "wrong-kind", "{:?} read of a stream with {}: {:?} instead of {:?}; stream {}", how, what, k, w, hex(b));
            }
        }
    }
    ensure!(src.pos() <= end, "overread", "{:?} read of a stream with {} consumed {} bytes, the malformed element ends at {}; stream {}", how, what, src.pos(), end, hex(b));
    Ok(())
}

pub fn c26(c: &mut Ctx) -> R<()> {
    c.world.fault("malformed_element");
    match c.w.draw(10) {
        0 => return messages(c),
        1 => return app_errors(c),
        2 => return skipped(c),
        _ => {}
    }
    let ops = pick_ops(&mut c.w);
    let size = if c.w.chance(1, 4) { Size::Medium } else { Size::Small };
    let v = gen_value(&mut c.w, ops, size);
    let mut tree = v.tree();
    if c.w.chance(1, 3) {
        // within unknown fields too
        let x = loop {
            let x = unknown_content(&mut c.w);
            if x.levels() <= 60 {
                break x;
            }
            break Val::List(T_BOOL, vec![Val::Bool(true)]);
        };
        let mut count = 0u64;
        for_each_struct(&mut tree, (ops.def)(), &mut |_, d| count += !d.union as u64);
        let target = c.w.draw(count);
        let mut k = 0;
        let t = &mut c.w;
        for_each_struct(&mut tree, (ops.def)(), &mut |fs, d| {
            if d.union {
                return;
            }
            if k == target {
                let at = t.draw(fs.len() as u64 + 1) as usize;
                fs.insert(at, (t.pick(&[77, -3, 30000]), x.clone()));
            }
            k += 1;
        });
    }
    let f = Forms { shuffle: false, ..forms(&mut c.w) };
    let good = {
        let mut e = Enc::new(f, &mut c.w);
        e.val(&tree);
        e.out
    };
    let sch = Ty::Struct((ops.def)());
    let ts = toks(&good, T_STRUCT, Some(&sch));
    let (bad, what, end, kind) = match spoil(&mut c.w, &good, &ts) {
        Some(x) => x,
        None => return Ok(()),
    };
    c.world.note(|| format!("{}: {} as {} with {}", ops.name, tree.brief(), hex(&bad), what));
    for how in HOWS {
        let cfg = Cfg::draw(&c.world).no_eintr();
        let (r, src) = read_one(c, how, ops, bad.clone(), usize::MAX, cfg)?;
        judge(&r, &src, how, &format!("{} ({})", what, ops.name), end, kind, &bad, |v| v.tree().brief())?;
    }
    Ok(())
}

/// Content that a caller skips or reads element by element.
fn skipped(c: &mut Ctx) -> R<()> {
    let v = unknown_content(&mut c.w);
    if v.levels() > 60 {
        return Ok(());
    }
    let mut good = foreign(&mut c.w, &v).0;
    let ts = toks(&good, v.ty(), None);
    good.extend_from_slice(&[0x11; 12]);
    if let Some((bad, what, end, kind)) = spoil(&mut c.w, &good, &ts) {
        for how in HOWS {
            let src = SimReader::new(&c.world, 2, bad.clone(), Cfg::draw(&c.world).no_eintr());
            let r = ReadSession::new(how, &src, usize::MAX).skip(ttype(v.ty()), None)?;
            judge(&r, &src, how, &format!("{} (skipped)", what), end, kind, &bad, |_| "success".into())?;
        }
    }
    // a string read as such
    let mut x = vec![b'a'; c.w.range(1, 40) as usize];
    let why = spoil_utf8(&mut c.w, &mut x);
    let mut b = vec![];
    put_varint(&mut b, x.len() as u64);
    b.extend_from_slice(&x);
    let end = b.len();
    b.extend_from_slice(&[0x11; 12]);
    for how in HOWS {
        let src = SimReader::new(&c.world, 3, b.clone(), Cfg::draw(&c.world).no_eintr());
        let r = ReadSession::new(how, &src, usize::MAX).elem(&El::Str(String::new()))?;
        judge(&r, &src, how, why, end, Some(Kind::P(P::InvalidData)), &b, |g| format!("{:?}", g))?;
        // the same content is a legal binary
        let src = SimReader::new(&c.world, 4, b.clone(), Cfg::draw(&c.world).no_eintr());
        let r = ReadSession::new(how, &src, usize::MAX).elem(&El::Bytes(vec![]))?;
        ensure!(r == Ok(Got::Bytes(x.clone())), "wrong-value", "{:?} read of the binary {} gave {:?}", how, hex(&x), r);
    }
    Ok(())
}

fn messages(c: &mut Ctx) -> R<()> {
    let name = Gen::new(&mut c.w, 60, false).string();
    let (ty, seq) = (c.w.range(1, 4) as u8, c.w.raw() as u32);
    let good = message_header(&name, ty, seq);
    let mut b = good.clone();
    let namelen = name.len();
    let (what, end, kind) = match c.w.draw(if namelen > 0 { 5 } else { 4 }) {
        0 => {
            b[0] = match c.w.draw(3) {
                0 => c.w.pick(&[0x80, 0x81, 0x83, 0, 0x02, 0xff, 0x28]),
                1 => 0x82 ^ (1 << c.w.draw(8)),
                _ => (0x83 + c.w.draw(255)) as u8,
            };
            (format!("protocol id {:#x}", b[0]), 2, Some(Kind::P(P::BadVersion)))
        }
        1 => {
            let v = match c.w.draw(2) {
                0 => c.w.pick(&[0, 2, 3, 0x11, 0x1f, 0x1e]),
                _ => (1 + c.w.range(1, 31)) as u8 % 32,
            };
            b[1] = (b[1] & 0xe0) | v;
            (format!("protocol version {}", v), 2, Some(Kind::P(P::BadVersion)))
        }
        2 => {
            let x = c.w.pick(&[0u8, 5, 6, 7]);
            b[1] = (x << 5) | 1;
            (format!("message type {}", x), good.len(), Some(Kind::P(P::InvalidData)))
        }
        3 => {
            // sequence number too long
            let mut n = vec![];
            put_varint(&mut n, seq as u64);
            let old = n.len();
            for y in n.iter_mut() {
                *y |= 0x80;
            }
            n.resize(5 + c.w.draw(3) as usize, 0x80);
            n.push(0);
            b.splice(2..2 + old, n);
            ("an overlong sequence number".into(), 2 + 6, None)
        }
        _ => {
            let at = good.len() - namelen;
            let why = spoil_utf8(&mut c.w, &mut b[at..]);
            (format!("{} in the name", why), good.len(), Some(Kind::P(P::InvalidData)))
        }
    };
    b.extend_from_slice(&[0; 12]);
    for how in HOWS {
        let src = SimReader::new(&c.world, 2, b.clone(), Cfg::draw(&c.world).no_eintr());
        let r = ReadSession::new(how, &src, usize::MAX).elem(&El::MsgBegin(String::new(), 1, 0))?;
        judge(&r, &src, how, &what, end, kind, &b, |g| format!("{:?}", g))?;
    }
    Ok(())
}

fn app_error_type() -> &'static Ty {
    static D: std::sync::OnceLock<StructDef> = std::sync::OnceLock::new();
    static T: std::sync::OnceLock<Ty> = std::sync::OnceLock::new();
    let d = D.get_or_init(|| StructDef {
        name: "TApplicationException",
        union: false,
        fields: vec![FieldDef { id: 1, name: "message", ty: Ty::Str, req: false }, FieldDef { id: 2, name: "type", ty: Ty::I32, req: false }],
    });
    T.get_or_init(|| Ty::Struct(d))
}

fn app_errors(c: &mut Ctx) -> R<()> {
    let msg = "m".repeat(c.w.range(1, 40) as usize);
    let mut fs = vec![(1, Val::Bytes(msg.into_bytes())), (2, Val::I32(c.w.draw(11) as i32))];
    if c.w.chance(1, 2) {
        let mut g = AnyGen { depth: 3, budget: 12, utf8: false };
        let ty = g.ty(&mut c.w, false);
        let x = g.val(&mut c.w, ty, 0);
        fs.insert(c.w.draw(3) as usize, (9, x));
    }
    let tree = Val::Struct(fs);
    let f = Forms { shuffle: false, ..forms(&mut c.w) };
    let good = {
        let mut e = Enc::new(f, &mut c.w);
        e.val(&tree);
        e.out
    };
    let ts = toks(&good, T_STRUCT, Some(app_error_type()));
    if let Some((bad, what, end, kind)) = spoil(&mut c.w, &good, &ts) {
        for how in [How::Sync, How::Boxed] {
            let src = SimReader::new(&c.world, 2, bad.clone(), Cfg::draw(&c.world).no_eintr());
            let r = app_read(how, &src, usize::MAX)?;
            judge(&r, &src, how, &format!("{} (application error)", what), end, kind, &bad, |e| format!("{:?}", e))?;
        }
    }
    Ok(())
}
