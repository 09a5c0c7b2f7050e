//! The reference model of the wire: a generic value tree with an independent Thrift
//! compact-protocol encoder and decoder (written from the protocol specification, sharing no code
//! with the crate under test).
use crate::tape::Tape;

use std::fmt::Write;

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(u64),
    Bytes(Vec<u8>),
    List(u8, Vec<Val>),
    Set(u8, Vec<Val>),
    Map(u8, u8, Vec<(Val, Val)>),
    Struct(Vec<(i16, Val)>),
}

// type codes of the compact protocol (collection flavour: BOOL = 1)
pub const T_BOOL: u8 = 1;
pub const T_I8: u8 = 3;
pub const T_I16: u8 = 4;
pub const T_I32: u8 = 5;
pub const T_I64: u8 = 6;
pub const T_DOUBLE: u8 = 7;
pub const T_BYTES: u8 = 8;
pub const T_LIST: u8 = 9;
pub const T_SET: u8 = 10;
pub const T_MAP: u8 = 11;
pub const T_STRUCT: u8 = 12;
pub const ALL_TYPES: [u8; 11] = [
    T_BOOL, T_I8, T_I16, T_I32, T_I64, T_DOUBLE, T_BYTES, T_LIST, T_SET, T_MAP, T_STRUCT,
];

impl Val {
    pub fn ty(&self) -> u8 {
        match self {
            Val::Bool(_) => T_BOOL,
            Val::I8(_) => T_I8,
            Val::I16(_) => T_I16,
            Val::I32(_) => T_I32,
            Val::I64(_) => T_I64,
            Val::Double(_) => T_DOUBLE,
            Val::Bytes(_) => T_BYTES,
            Val::List(..) => T_LIST,
            Val::Set(..) => T_SET,
            Val::Map(..) => T_MAP,
            Val::Struct(_) => T_STRUCT,
        }
    }
    /// Nesting levels: a scalar or an empty container is one level.
    pub fn levels(&self) -> usize {
        1 + match self {
            Val::List(_, v) | Val::Set(_, v) => v.iter().map(Val::levels).max().unwrap_or(0),
            Val::Map(_, _, v) => v
                .iter()
                .map(|(a, b)| a.levels().max(b.levels()))
                .max()
                .unwrap_or(0),
            Val::Struct(f) => f.iter().map(|(_, v)| v.levels()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Short rendering for logs.
    pub fn brief(&self) -> String {
        match bounded(self, 400) {
            Ok(s) => s,
            Err(s) => s + "...",
        }
    }
    /// Equal exactly for equal values (up to hash collisions); short for short values.
    pub fn fingerprint(&self) -> String {
        match bounded(self, 2000) {
            Ok(s) => s,
            Err(_) => {
                let mut h = HashOut(0xcbf2_9ce4_8422_2325);
                let _ = write!(h, "{:?}", self);
                format!("{:x} {}", h.0, self.brief())
            }
        }
    }
}

struct HashOut(u64);
impl std::fmt::Write for HashOut {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Ok(())
    }
}
struct Bounded(String, usize);
impl std::fmt::Write for Bounded {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.0.len() >= self.1 {
                return Err(std::fmt::Error);
            }
            self.0.push(c);
        }
        Ok(())
    }
}
/// Its debug form, or the start of it (without formatting the rest).
pub fn bounded<T: std::fmt::Debug>(v: &T, max: usize) -> Result<String, String> {
    let mut b = Bounded(String::new(), max);
    match write!(b, "{:?}", v) {
        Ok(()) => Ok(b.0),
        Err(_) => Err(b.0),
    }
}

fn zz(n: i64) -> u64 {
    if n >= 0 {
        (n as u64) << 1
    } else {
        ((!(n as u64)) << 1) | 1
    }
}
fn unzz(u: u64) -> i64 {
    if u & 1 == 0 {
        (u >> 1) as i64
    } else {
        !((u >> 1) as i64)
    }
}

pub fn put_varint(out: &mut Vec<u8>, mut u: u64) {
    loop {
        let b = (u & 0x7f) as u8;
        u >>= 7;
        if u == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

/// Which of the legal forms a foreign writer uses.
#[derive(Clone, Copy, Default)]
pub struct Forms {
    /// probability (of 8) of a long-form field header where the short one would do
    pub long_field: u64,
    /// probability (of 8) of a long-form list count where the short one would do
    pub long_list: u64,
    /// permute the fields of structs
    pub shuffle: bool,
    /// the element type code of boolean collections: the specification's 2, or 1 as most write it
    pub bool_two: bool,
    /// false as an element: the specification's 0, or 2 as most write it
    pub false_zero: bool,
}

/// A charge against a read limit: `pos` is how much of the stream has been consumed when the reader
/// knows the charge.
#[derive(Clone, Copy, Debug)]
pub struct Charge {
    pub pos: usize,
    pub amount: u64,
}

pub struct Enc<'a> {
    pub out: Vec<u8>,
    pub charges: Vec<Charge>,
    pub forms: Forms,
    pub tape: Option<&'a mut Tape>,
}

pub fn encode(v: &Val) -> Vec<u8> {
    let mut e = Enc {
        out: vec![],
        charges: vec![],
        forms: Forms::default(),
        tape: None,
    };
    e.val(v);
    e.out
}

impl<'a> Enc<'a> {
    pub fn new(forms: Forms, tape: &'a mut Tape) -> Enc<'a> {
        Enc {
            out: vec![],
            charges: vec![],
            forms,
            tape: Some(tape),
        }
    }
    fn flip(&mut self, of8: u64) -> bool {
        match self.tape.as_mut() {
            Some(t) if of8 > 0 => t.chance(of8, 8),
            _ => false,
        }
    }
    fn charge(&mut self, amount: u64) {
        let pos = self.out.len();
        self.charges.push(Charge { pos, amount });
    }
    fn elem_code(&self, t: u8) -> u8 {
        if t == T_BOOL && self.forms.bool_two {
            2
        } else {
            t
        }
    }
    pub fn val(&mut self, v: &Val) {
        match v {
            Val::Bool(b) => self.out.push(if *b {
                1
            } else if self.forms.false_zero {
                0
            } else {
                2
            }),
            Val::I8(x) => self.out.push(*x as u8),
            Val::I16(x) => put_varint(&mut self.out, zz(*x as i64)),
            Val::I32(x) => put_varint(&mut self.out, zz(*x as i64)),
            Val::I64(x) => put_varint(&mut self.out, zz(*x)),
            Val::Double(bits) => self.out.extend_from_slice(&bits.to_le_bytes()),
            Val::Bytes(b) => {
                put_varint(&mut self.out, b.len() as u64);
                self.charge(b.len() as u64);
                self.out.extend_from_slice(b);
            }
            Val::List(t, xs) | Val::Set(t, xs) => {
                let t = self.elem_code(*t);
                if xs.len() < 15 && !self.flip(self.forms.long_list) {
                    self.out.push(((xs.len() as u8) << 4) | t);
                } else {
                    self.out.push(0xF0 | t);
                    put_varint(&mut self.out, xs.len() as u64);
                }
                self.charge(8 * xs.len() as u64);
                for x in xs {
                    self.val(x);
                }
            }
            Val::Map(k, t, xs) => {
                put_varint(&mut self.out, xs.len() as u64);
                if !xs.is_empty() {
                    let h = (self.elem_code(*k) << 4) | self.elem_code(*t);
                    self.out.push(h);
                    self.charge(8 * xs.len() as u64);
                    for (a, b) in xs {
                        self.val(a);
                        self.val(b);
                    }
                }
            }
            Val::Struct(fields) => {
                self.charge(2);
                let mut order: Vec<usize> = (0..fields.len()).collect();
                if self.forms.shuffle {
                    if let Some(t) = self.tape.as_mut() {
                        for i in (1..order.len()).rev() {
                            let j = i - t.draw(i as u64 + 1) as usize;
                            order.swap(i, j);
                        }
                    }
                }
                let mut last = 0i32;
                for i in order {
                    let (id, v) = &fields[i];
                    let code = match v {
                        Val::Bool(true) => 1,
                        Val::Bool(false) => 2,
                        v => v.ty(),
                    };
                    let delta = *id as i32 - last;
                    if (1..=15).contains(&delta) && !self.flip(self.forms.long_field) {
                        self.out.push(((delta as u8) << 4) | code);
                    } else {
                        self.out.push(code);
                        put_varint(&mut self.out, zz(*id as i64));
                    }
                    last = *id as i32;
                    if !matches!(v, Val::Bool(_)) {
                        self.val(v);
                    }
                }
                self.out.push(0);
            }
        }
    }
}

pub struct Dec<'a> {
    b: &'a [u8],
    pub i: usize,
}

type R<T> = Result<T, String>;

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Dec<'a> {
        Dec { b, i: 0 }
    }
    fn byte(&mut self) -> R<u8> {
        let x = *self.b.get(self.i).ok_or("unexpected end")?;
        self.i += 1;
        Ok(x)
    }
    pub fn varint(&mut self, bits: u32) -> R<u64> {
        let mut r: u128 = 0;
        for k in 0..10 {
            let b = self.byte()?;
            r |= ((b & 0x7f) as u128) << (7 * k);
            if b & 0x80 == 0 {
                if r >> bits != 0 {
                    return Err(format!("varint overflows {} bits", bits));
                }
                return Ok(r as u64);
            }
        }
        Err("unterminated varint".into())
    }
    pub fn bytes(&mut self) -> R<Vec<u8>> {
        let n = self.varint(32)? as usize;
        if self.b.len() - self.i < n {
            return Err("string past the end".into());
        }
        let r = self.b[self.i..self.i + n].to_vec();
        self.i += n;
        Ok(r)
    }
    fn ctype(&self, c: u8) -> R<u8> {
        match c {
            1 | 2 => Ok(T_BOOL),
            3..=12 => Ok(c),
            c => Err(format!("bad type code {}", c)),
        }
    }
    pub fn val(&mut self, ty: u8, depth: usize) -> R<Val> {
        if depth > 300 {
            return Err("too deep".into());
        }
        Ok(match ty {
            T_BOOL => match self.byte()? {
                1 => Val::Bool(true),
                0 | 2 => Val::Bool(false),
                b => return Err(format!("bad bool {}", b)),
            },
            T_I8 => Val::I8(self.byte()? as i8),
            T_I16 => Val::I16(unzz(self.varint(16)?) as i16),
            T_I32 => Val::I32(unzz(self.varint(32)?) as i32),
            T_I64 => Val::I64(unzz(self.varint(64)?)),
            T_DOUBLE => {
                let mut x = [0u8; 8];
                for b in x.iter_mut() {
                    *b = self.byte()?;
                }
                Val::Double(u64::from_le_bytes(x))
            }
            T_BYTES => Val::Bytes(self.bytes()?),
            T_LIST | T_SET => {
                let h = self.byte()?;
                let et = self.ctype(h & 15)?;
                let n = if h >> 4 == 15 {
                    self.varint(32)?
                } else {
                    (h >> 4) as u64
                };
                if n > (self.b.len() - self.i) as u64 {
                    return Err("list past the end".into());
                }
                let mut v = Vec::with_capacity(n as usize);
                for _ in 0..n {
                    v.push(self.val(et, depth + 1)?);
                }
                if ty == T_LIST {
                    Val::List(et, v)
                } else {
                    Val::Set(et, v)
                }
            }
            T_MAP => {
                let n = self.varint(32)?;
                if n == 0 {
                    return Ok(Val::Map(0, 0, vec![]));
                }
                let h = self.byte()?;
                let (k, t) = (self.ctype(h >> 4)?, self.ctype(h & 15)?);
                if n > (self.b.len() - self.i) as u64 {
                    return Err("map past the end".into());
                }
                let mut v = Vec::with_capacity(n as usize);
                for _ in 0..n {
                    let a = self.val(k, depth + 1)?;
                    v.push((a, self.val(t, depth + 1)?));
                }
                Val::Map(k, t, v)
            }
            T_STRUCT => {
                let mut fields = vec![];
                let mut last = 0i32;
                loop {
                    let h = self.byte()?;
                    if h == 0 {
                        return Ok(Val::Struct(fields));
                    }
                    let t = self.ctype(h & 15)?;
                    let id = if h >> 4 != 0 {
                        last + (h >> 4) as i32
                    } else {
                        unzz(self.varint(16)?) as i32
                    };
                    if id > i16::MAX as i32 {
                        return Err("field id overflow".into());
                    }
                    last = id;
                    let v = if t == T_BOOL {
                        Val::Bool(h & 15 == 1)
                    } else {
                        self.val(t, depth + 1)?
                    };
                    fields.push((id as i16, v));
                }
            }
            t => return Err(format!("bad type {}", t)),
        })
    }
}

/// Decode one value of wire type `ty` that must span all of `b`.
pub fn decode_all(b: &[u8], ty: u8) -> R<Val> {
    let mut d = Dec::new(b);
    let v = d.val(ty, 0)?;
    if d.i != b.len() {
        return Err(format!("{} bytes after the value", b.len() - d.i));
    }
    Ok(v)
}
