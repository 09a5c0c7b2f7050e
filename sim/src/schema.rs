//! The published Parquet schema (ids, wire types, requiredness, enum codes; transcribed from
//! parquet.thrift) bound to the Rust types of the crate under test, with generators and conversion
//! to the reference value tree.
use crate::io::{SimReader, SimWriter};
use crate::mock::Mock;
use crate::tape::Tape;
use crate::val::*;
use futures::future::BoxFuture;
use parquet_format_safe as pf;
use pf::thrift::protocol::{
    TCompactInputProtocol, TCompactInputStreamProtocol, TCompactOutputProtocol,
    TCompactOutputStreamProtocol, TOutputProtocol,
};
use pf::thrift::Result as TResult;
use std::any::Any;
use std::sync::OnceLock;

pub type InSync = TCompactInputProtocol<SimReader>;
pub type InBoxed = Box<TCompactInputProtocol<SimReader>>;
pub type InAsync = TCompactInputStreamProtocol<SimReader>;
pub type OutSync = TCompactOutputProtocol<SimWriter>;
pub type OutBoxed = Box<dyn TOutputProtocol + Send>;
pub type OutAsync = TCompactOutputStreamProtocol<SimWriter>;

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    Str,
    Bin,
    List(Box<Ty>),
    Struct(&'static StructDef),
}

impl Ty {
    pub fn wire(&self) -> u8 {
        match self {
            Ty::Bool => T_BOOL,
            Ty::I8 => T_I8,
            Ty::I16 => T_I16,
            Ty::I32 => T_I32,
            Ty::I64 => T_I64,
            Ty::Str | Ty::Bin => T_BYTES,
            Ty::List(_) => T_LIST,
            Ty::Struct(_) => T_STRUCT,
        }
    }
}

#[derive(Debug)]
pub struct FieldDef {
    pub id: i16,
    pub name: &'static str,
    pub ty: Ty,
    pub req: bool,
}

#[derive(Debug)]
pub struct StructDef {
    pub name: &'static str,
    pub union: bool,
    pub fields: Vec<FieldDef>,
}

impl FieldDef {
    /// The field's name in parquet.thrift.
    pub fn thrift_name(&self) -> &'static str {
        match self.name {
            "type_" => "type",
            "is_adjusted_to_u_t_c" => "isAdjustedToUTC",
            "bit_width" => "bitWidth",
            "is_signed" => "isSigned",
            "logical_type" => "logicalType",
            "num_bytes" => "numBytes",
            "TYPEORDER" => "TYPE_ORDER",
            "ENCRYPTIONWITHFOOTERKEY" => "ENCRYPTION_WITH_FOOTER_KEY",
            "ENCRYPTIONWITHCOLUMNKEY" => "ENCRYPTION_WITH_COLUMN_KEY",
            "AESGCMV1" => "AES_GCM_V1",
            "AESGCMCTRV1" => "AES_GCM_CTR_V1",
            n => n,
        }
    }
}

/// Generation context: a budget bounds the size of one value.
pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub budget: i64,
    /// allow multi-kilobyte strings and lists with hundreds of entries
    pub big: bool,
    /// contents are often those of other fields and entries of the same value
    twins: bool,
    ints: Vec<i64>,
    contents: Vec<Vec<u8>>,
    names: Vec<String>,
}

impl<'a> Gen<'a> {
    pub fn new(t: &'a mut Tape, budget: i64, big: bool) -> Gen<'a> {
        let twins = t.chance(1, 4);
        Gen { t, budget, big, twins, ints: vec![], contents: vec![], names: vec![] }
    }
    pub fn int(&mut self, bits: u32) -> i64 {
        if !self.twins {
            return self.new_int(bits);
        }
        if !self.ints.is_empty() && self.t.chance(1, 3) {
            let x = self.ints[self.t.draw(self.ints.len() as u64) as usize];
            return x << (64 - bits) >> (64 - bits);
        }
        let x = self.new_int(bits);
        self.ints.push(x);
        x
    }
    fn new_int(&mut self, bits: u32) -> i64 {
        let (lo, hi) = (
            if bits == 64 { i64::MIN } else { -(1i64 << (bits - 1)) },
            if bits == 64 { i64::MAX } else { (1i64 << (bits - 1)) - 1 },
        );
        let v: i128 = match self.t.weighted(&[3, 3, 4, 1, 2, 3]) {
            0 => self.t.draw(4) as i128,
            1 => self.t.range(0, 200) as i128 - 100,
            // around the varint length boundaries (zigzag)
            2 => {
                let k = self.t.draw(10) as u32;
                let base = 1i128 << (7 * k + 6).min(bits - 1);
                let d = self.t.draw(5) as i128 - 2;
                if self.t.chance(1, 2) {
                    -base + d
                } else {
                    base + d
                }
            }
            3 => 0,
            4 => match self.t.draw(4) {
                0 => hi as i128,
                1 => lo as i128,
                2 => hi as i128 - 1,
                _ => lo as i128 + 1,
            },
            _ => self.t.raw() as i64 as i128,
        };
        if v < lo as i128 || v > hi as i128 {
            // keep the low bits
            let m = (v as u64) << (64 - bits);
            return (m as i64) >> (64 - bits);
        }
        v as i64
    }
    pub fn len(&mut self) -> usize {
        let n = match self.t.weighted(&[60, 100, 40, 20, if self.big { 20 } else { 0 }, if self.big { 10 } else { 0 }, if self.budget > 2_500_000 { 40 } else { 0 }]) {
            0 => 0,
            1 => self.t.range(1, 8),
            2 => self.t.range(9, 40),
            3 => match self.t.draw(4) {
                0 => self.t.pick(&[15, 16, 31, 32, 33, 63, 64, 65, 254, 255, 256, 257]),
                _ => self.t.range(126, 130),
            },
            4 => self.t.range(16_382, 16_386),
            5 => self.t.pick(&[500, 1024, 3000, 4096, 8191, 8192, 8193, 65_535, 65_536, 70_000]),
            _ => self.t.pick(&[1 << 17, 1 << 20, (1 << 21) - 1, 1 << 21]),
        } as i64;
        let n = if n > self.budget.max(4) { n % 5 } else { n };
        self.budget -= n;
        n as usize
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        if !self.twins {
            return self.new_bytes();
        }
        if !self.contents.is_empty() && self.t.chance(1, 3) {
            let x = self.contents[self.t.draw(self.contents.len() as u64) as usize].clone();
            self.budget -= x.len() as i64;
            return x;
        }
        let x = self.new_bytes();
        if x.len() < 1000 {
            self.contents.push(x.clone());
        }
        x
    }
    fn new_bytes(&mut self) -> Vec<u8> {
        let n = self.len();
        let seed = self.t.draw(1 << 16);
        let mut r = crate::tape::Rng::new(seed);
        let mut v = Vec::with_capacity(n);
        if seed == 0 {
            v.resize(n, 0);
        } else {
            while v.len() < n {
                let x = r.next();
                v.extend_from_slice(&x.to_le_bytes()[..8.min(n - v.len())]);
            }
        }
        v
    }
    pub fn string(&mut self) -> String {
        if !self.twins {
            return self.new_string();
        }
        if !self.names.is_empty() && self.t.chance(1, 3) {
            let x = self.names[self.t.draw(self.names.len() as u64) as usize].clone();
            self.budget -= x.len() as i64;
            return x;
        }
        let x = self.new_string();
        if x.len() < 1000 {
            self.names.push(x.clone());
        }
        x
    }
    fn new_string(&mut self) -> String {
        // names that share their length, their beginning and most of their middle
        if self.t.chance(1, 4) {
            let n = self.t.pick(&[5usize, 8, 12, 16, 20, 40]);
            let mut s = "column_of_the_table_of_the_whole_database"[..n].to_string();
            let k = self.t.draw(26) as u8;
            let at = if self.t.chance(3, 4) { n - 1 } else { n - 2 };
            s.replace_range(at..at + 1, &((b'a' + k) as char).to_string());
            return s;
        }
        let n = self.len();
        let seed = self.t.draw(1 << 12);
        if seed == 0 {
            return "a".repeat(n);
        }
        // exactly n bytes of valid UTF-8, mixing 1..4 byte characters
        let mut r = crate::tape::Rng::new(seed);
        const CH: [&str; 16] = ["a", "Z", "0", "\0", "\n", " ", "\r", "é", "ß", "\u{7ff}", "€", "\u{ffff}", "𝄞", "\u{10ffff}", "\u{feff}", "\u{fffd}"];
        let multi = seed % 3 != 0;
        let mut s = String::with_capacity(n);
        while s.len() < n {
            let c = CH[(r.next() % if multi { 16 } else { 7 }) as usize];
            if s.len() + c.len() <= n {
                s.push_str(c);
            } else {
                s.push('x');
            }
        }
        s
    }
    pub fn list_len(&mut self) -> usize {
        let n = match self.t.weighted(&[4, 10, 4, 1, if self.big { 1 } else { 0 }, if self.big { 1 } else { 0 }]) {
            0 => 0,
            1 => self.t.range(1, 3),
            2 => self.t.range(13, 17),
            3 => self.t.range(126, 130),
            4 => self.t.pick(&[300, 1000, 16_383, 16_384]),
            _ => self.t.pick(&[5000, 65_535, 65_536, 65_537]),
        } as i64;
        let n = if n > self.budget / 2 { n % 4 } else { n };
        self.budget -= 2 * n;
        n as usize
    }
}

pub trait Field: Sized + Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    fn ty() -> Ty;
    fn gen(g: &mut Gen) -> Self;
    fn tree(&self) -> Val;
    fn vary(&mut self, _i: usize) {}
}

macro_rules! int_field {
    ($t:ty, $ty:ident, $v:ident, $bits:expr) => {
        impl Field for $t {
            fn ty() -> Ty {
                Ty::$ty
            }
            fn gen(g: &mut Gen) -> Self {
                g.int($bits) as $t
            }
            fn tree(&self) -> Val {
                Val::$v(*self)
            }
            fn vary(&mut self, i: usize) {
                *self ^= (i as $t) & 0x3f;
            }
        }
    };
}
int_field!(i8, I8, I8, 8);
int_field!(i16, I16, I16, 16);
int_field!(i32, I32, I32, 32);
int_field!(i64, I64, I64, 64);

impl Field for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn gen(g: &mut Gen) -> Self {
        g.t.chance(1, 2)
    }
    fn tree(&self) -> Val {
        Val::Bool(*self)
    }
    fn vary(&mut self, i: usize) {
        *self ^= i % 7 == 3;
    }
}
impl Field for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn gen(g: &mut Gen) -> Self {
        g.string()
    }
    fn tree(&self) -> Val {
        Val::Bytes(self.clone().into_bytes())
    }
    fn vary(&mut self, i: usize) {
        if self.len() < 20 {
            self.push_str(&i.to_string());
        }
    }
}

/// `Vec<u8>` is Thrift binary; every other `Vec` is a list.
pub trait Elem: Field {}
impl Elem for bool {}
impl Elem for i64 {}
impl Elem for String {}
impl Elem for Vec<u8> {}

impl Field for Vec<u8> {
    fn ty() -> Ty {
        Ty::Bin
    }
    fn gen(g: &mut Gen) -> Self {
        g.bytes()
    }
    fn tree(&self) -> Val {
        Val::Bytes(self.clone())
    }
    fn vary(&mut self, i: usize) {
        if let Some(b) = self.first_mut() {
            *b ^= i as u8;
        }
    }
}
impl<T: Elem> Field for Vec<T> {
    fn ty() -> Ty {
        Ty::List(Box::new(T::ty()))
    }
    fn gen(g: &mut Gen) -> Self {
        let n = g.list_len();
        let distinct = n.min(18);
        let mut v: Vec<T> = Vec::with_capacity(n);
        for _ in 0..distinct.min(if n > 18 { 4 } else { 18 }) {
            if n > 18 {
                let b = g.budget;
                g.budget = g.budget.min(24);
                v.push(T::gen(g));
                g.budget = b - 8;
            } else {
                v.push(T::gen(g));
            }
        }
        let k = v.len();
        for i in k..n {
            let mut x = v[i % k].clone();
            x.vary(i);
            v.push(x);
        }
        if g.twins && n > 1 {
            match g.t.draw(6) {
                1 => {
                    let x = v[0].clone();
                    v.fill(x);
                }
                2 | 3 => {
                    let (i, j) = (g.t.draw(n as u64) as usize, g.t.draw(n as u64) as usize);
                    v[i] = v[j].clone();
                }
                _ => {}
            }
        }
        v
    }
    fn tree(&self) -> Val {
        Val::List(T::ty().wire(), self.iter().map(Field::tree).collect())
    }
    fn vary(&mut self, _: usize) {}
}

macro_rules! metas_enum {
    ($($name:ident { $($k:ident = $code:expr),* $(,)? })*) => { $(
        impl Field for pf::$name {
            fn ty() -> Ty { Ty::I32 }
            fn gen(g: &mut Gen) -> Self {
                let all = [$(pf::$name::$k),*];
                if g.t.chance(1, 6) {
                    // a code this version of the schema does not name
                    pf::$name(g.int(32) as i32)
                } else {
                    all[g.t.draw(all.len() as u64) as usize]
                }
            }
            fn tree(&self) -> Val {
                $( if *self == pf::$name::$k { return Val::I32($code); } )*
                Val::I32(self.0)
            }
        }
        impl Elem for pf::$name {}
    )* };
}

metas_enum! {
    Type { BOOLEAN=0, INT32=1, INT64=2, INT96=3, FLOAT=4, DOUBLE=5, BYTE_ARRAY=6, FIXED_LEN_BYTE_ARRAY=7 }
    ConvertedType { UTF8=0, MAP=1, MAP_KEY_VALUE=2, LIST=3, ENUM=4, DECIMAL=5, DATE=6, TIME_MILLIS=7,
        TIME_MICROS=8, TIMESTAMP_MILLIS=9, TIMESTAMP_MICROS=10, UINT_8=11, UINT_16=12, UINT_32=13,
        UINT_64=14, INT_8=15, INT_16=16, INT_32=17, INT_64=18, JSON=19, BSON=20, INTERVAL=21 }
    FieldRepetitionType { REQUIRED=0, OPTIONAL=1, REPEATED=2 }
    Encoding { PLAIN=0, PLAIN_DICTIONARY=2, RLE=3, BIT_PACKED=4, DELTA_BINARY_PACKED=5,
        DELTA_LENGTH_BYTE_ARRAY=6, DELTA_BYTE_ARRAY=7, RLE_DICTIONARY=8, BYTE_STREAM_SPLIT=9 }
    CompressionCodec { UNCOMPRESSED=0, SNAPPY=1, GZIP=2, LZO=3, BROTLI=4, LZ4=5, ZSTD=6, LZ4_RAW=7 }
    PageType { DATA_PAGE=0, INDEX_PAGE=1, DICTIONARY_PAGE=2, DATA_PAGE_V2=3 }
    BoundaryOrder { UNORDERED=0, ASCENDING=1, DESCENDING=2 }
}

macro_rules! fgen {
    (req $t:ty, $g:ident) => { <$t as Field>::gen($g) };
    (opt $t:ty, $g:ident) => { if $g.t.chance(1, 2) { Some(<$t as Field>::gen($g)) } else { None } };
}
macro_rules! ftree {
    (req, $e:expr, $id:expr, $v:ident) => { $v.push(($id, Field::tree(&$e))) };
    (opt, $e:expr, $id:expr, $v:ident) => { if let Some(x) = $e.as_ref() { $v.push(($id, Field::tree(x))) } };
}
macro_rules! fvary {
    (req, $e:expr, $i:ident) => { $e.vary($i) };
    (opt, $e:expr, $i:ident) => { if let Some(x) = $e.as_mut() { x.vary($i) } };
}
macro_rules! freq {
    (req) => { true };
    (opt) => { false };
}

macro_rules! metas_struct {
    ($($name:ident { $($id:literal $q:ident $f:ident : $t:ty),* $(,)? })*) => { $(
        impl Field for pf::$name {
            fn ty() -> Ty {
                static D: OnceLock<StructDef> = OnceLock::new();
                Ty::Struct(D.get_or_init(|| StructDef {
                    name: stringify!($name), union: false,
                    fields: vec![$(FieldDef { id: $id, name: stringify!($f), ty: <$t as Field>::ty(), req: freq!($q) }),*],
                }))
            }
            #[allow(unused_variables)]
            fn gen(g: &mut Gen) -> Self {
                pf::$name { $($f: fgen!($q $t, g)),* }
            }
            #[allow(unused_mut)]
            fn tree(&self) -> Val {
                let mut v: Vec<(i16, Val)> = Vec::new();
                $( ftree!($q, self.$f, $id, v); )*
                Val::Struct(v)
            }
            #[allow(unused_variables)]
            fn vary(&mut self, i: usize) {
                $( fvary!($q, self.$f, i); )*
            }
        }
        impl Elem for pf::$name {}
        impl AnyVal for pf::$name { any_val!(pf::$name); }
    )* };
}

macro_rules! metas_union {
    ($($name:ident { $($id:literal $var:ident($t:ident)),* $(,)? })*) => { $(
        impl Field for pf::$name {
            fn ty() -> Ty {
                static D: OnceLock<StructDef> = OnceLock::new();
                Ty::Struct(D.get_or_init(|| StructDef {
                    name: stringify!($name), union: true,
                    fields: vec![$(FieldDef { id: $id, name: stringify!($var), ty: <pf::$t as Field>::ty(), req: false }),*],
                }))
            }
            fn gen(g: &mut Gen) -> Self {
                let makers: &[fn(&mut Gen) -> Self] = &[$(|g| pf::$name::$var(<pf::$t as Field>::gen(g))),*];
                let i = g.t.draw(makers.len() as u64) as usize;
                makers[i](g)
            }
            fn tree(&self) -> Val {
                match self { $(pf::$name::$var(x) => Val::Struct(vec![($id, Field::tree(x))]),)* }
            }
        }
        impl Elem for pf::$name {}
        impl AnyVal for pf::$name { any_val!(pf::$name); }
    )* };
}

/// A value of one of the crate's public metadata types.
pub trait AnyVal: Send + Sync {
    fn tree(&self) -> Val;
    fn same(&self, o: &dyn AnyVal) -> bool;
    fn as_any(&self) -> &dyn Any;
    fn write_sync(&self, p: &mut OutSync) -> TResult<usize>;
    fn write_boxed(&self, p: &mut OutBoxed) -> TResult<usize>;
    fn write_async<'a>(&'a self, p: &'a mut OutAsync) -> BoxFuture<'a, TResult<usize>>;
    fn write_mock(&self, p: &mut Mock) -> TResult<usize>;
    fn write_mock_async<'a>(&'a self, p: &'a mut Mock) -> BoxFuture<'a, TResult<usize>>;
}
pub type DynVal = Box<dyn AnyVal>;

macro_rules! any_val {
    ($t:ty) => {
        fn tree(&self) -> Val {
            Field::tree(self)
        }
        fn same(&self, o: &dyn AnyVal) -> bool {
            o.as_any().downcast_ref::<$t>() == Some(self)
        }
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn write_sync(&self, p: &mut OutSync) -> TResult<usize> {
            self.write_to_out_protocol(p)
        }
        fn write_boxed(&self, p: &mut OutBoxed) -> TResult<usize> {
            self.write_to_out_protocol(p)
        }
        fn write_async<'a>(&'a self, p: &'a mut OutAsync) -> BoxFuture<'a, TResult<usize>> {
            Box::pin(self.write_to_out_stream_protocol(p))
        }
        fn write_mock(&self, p: &mut Mock) -> TResult<usize> {
            self.write_to_out_protocol(p)
        }
        fn write_mock_async<'a>(&'a self, p: &'a mut Mock) -> BoxFuture<'a, TResult<usize>> {
            Box::pin(self.write_to_out_stream_protocol(p))
        }
    };
}

metas_struct! {
    Statistics { 1 opt max: Vec<u8>, 2 opt min: Vec<u8>, 3 opt null_count: i64, 4 opt distinct_count: i64,
        5 opt max_value: Vec<u8>, 6 opt min_value: Vec<u8> }
    StringType {} UUIDType {} MapType {} ListType {} EnumType {} DateType {} NullType {}
    DecimalType { 1 req scale: i32, 2 req precision: i32 }
    MilliSeconds {} MicroSeconds {} NanoSeconds {}
    TimestampType { 1 req is_adjusted_to_u_t_c: bool, 2 req unit: pf::TimeUnit }
    TimeType { 1 req is_adjusted_to_u_t_c: bool, 2 req unit: pf::TimeUnit }
    IntType { 1 req bit_width: i8, 2 req is_signed: bool }
    JsonType {} BsonType {}
    SchemaElement { 1 opt type_: pf::Type, 2 opt type_length: i32, 3 opt repetition_type: pf::FieldRepetitionType,
        4 req name: String, 5 opt num_children: i32, 6 opt converted_type: pf::ConvertedType, 7 opt scale: i32,
        8 opt precision: i32, 9 opt field_id: i32, 10 opt logical_type: pf::LogicalType }
    DataPageHeader { 1 req num_values: i32, 2 req encoding: pf::Encoding, 3 req definition_level_encoding: pf::Encoding,
        4 req repetition_level_encoding: pf::Encoding, 5 opt statistics: pf::Statistics }
    IndexPageHeader {}
    DictionaryPageHeader { 1 req num_values: i32, 2 req encoding: pf::Encoding, 3 opt is_sorted: bool }
    DataPageHeaderV2 { 1 req num_values: i32, 2 req num_nulls: i32, 3 req num_rows: i32, 4 req encoding: pf::Encoding,
        5 req definition_levels_byte_length: i32, 6 req repetition_levels_byte_length: i32, 7 opt is_compressed: bool,
        8 opt statistics: pf::Statistics }
    SplitBlockAlgorithm {} XxHash {} Uncompressed {}
    BloomFilterHeader { 1 req num_bytes: i32, 2 req algorithm: pf::BloomFilterAlgorithm, 3 req hash: pf::BloomFilterHash,
        4 req compression: pf::BloomFilterCompression }
    PageHeader { 1 req type_: pf::PageType, 2 req uncompressed_page_size: i32, 3 req compressed_page_size: i32,
        4 opt crc: i32, 5 opt data_page_header: pf::DataPageHeader, 6 opt index_page_header: pf::IndexPageHeader,
        7 opt dictionary_page_header: pf::DictionaryPageHeader, 8 opt data_page_header_v2: pf::DataPageHeaderV2 }
    KeyValue { 1 req key: String, 2 opt value: String }
    SortingColumn { 1 req column_idx: i32, 2 req descending: bool, 3 req nulls_first: bool }
    PageEncodingStats { 1 req page_type: pf::PageType, 2 req encoding: pf::Encoding, 3 req count: i32 }
    ColumnMetaData { 1 req type_: pf::Type, 2 req encodings: Vec<pf::Encoding>, 3 req path_in_schema: Vec<String>,
        4 req codec: pf::CompressionCodec, 5 req num_values: i64, 6 req total_uncompressed_size: i64,
        7 req total_compressed_size: i64, 8 opt key_value_metadata: Vec<pf::KeyValue>, 9 req data_page_offset: i64,
        10 opt index_page_offset: i64, 11 opt dictionary_page_offset: i64, 12 opt statistics: pf::Statistics,
        13 opt encoding_stats: Vec<pf::PageEncodingStats>, 14 opt bloom_filter_offset: i64 }
    EncryptionWithFooterKey {}
    EncryptionWithColumnKey { 1 req path_in_schema: Vec<String>, 2 opt key_metadata: Vec<u8> }
    ColumnChunk { 1 opt file_path: String, 2 req file_offset: i64, 3 opt meta_data: pf::ColumnMetaData,
        4 opt offset_index_offset: i64, 5 opt offset_index_length: i32, 6 opt column_index_offset: i64,
        7 opt column_index_length: i32, 8 opt crypto_metadata: pf::ColumnCryptoMetaData,
        9 opt encrypted_column_metadata: Vec<u8> }
    RowGroup { 1 req columns: Vec<pf::ColumnChunk>, 2 req total_byte_size: i64, 3 req num_rows: i64,
        4 opt sorting_columns: Vec<pf::SortingColumn>, 5 opt file_offset: i64, 6 opt total_compressed_size: i64,
        7 opt ordinal: i16 }
    TypeDefinedOrder {}
    PageLocation { 1 req offset: i64, 2 req compressed_page_size: i32, 3 req first_row_index: i64 }
    OffsetIndex { 1 req page_locations: Vec<pf::PageLocation> }
    ColumnIndex { 1 req null_pages: Vec<bool>, 2 req min_values: Vec<Vec<u8>>, 3 req max_values: Vec<Vec<u8>>,
        4 req boundary_order: pf::BoundaryOrder, 5 opt null_counts: Vec<i64> }
    AesGcmV1 { 1 opt aad_prefix: Vec<u8>, 2 opt aad_file_unique: Vec<u8>, 3 opt supply_aad_prefix: bool }
    AesGcmCtrV1 { 1 opt aad_prefix: Vec<u8>, 2 opt aad_file_unique: Vec<u8>, 3 opt supply_aad_prefix: bool }
    FileMetaData { 1 req version: i32, 2 req schema: Vec<pf::SchemaElement>, 3 req num_rows: i64,
        4 req row_groups: Vec<pf::RowGroup>, 5 opt key_value_metadata: Vec<pf::KeyValue>, 6 opt created_by: String,
        7 opt column_orders: Vec<pf::ColumnOrder>, 8 opt encryption_algorithm: pf::EncryptionAlgorithm,
        9 opt footer_signing_key_metadata: Vec<u8> }
    FileCryptoMetaData { 1 req encryption_algorithm: pf::EncryptionAlgorithm, 2 opt key_metadata: Vec<u8> }
}

metas_union! {
    TimeUnit { 1 MILLIS(MilliSeconds), 2 MICROS(MicroSeconds), 3 NANOS(NanoSeconds) }
    LogicalType { 1 STRING(StringType), 2 MAP(MapType), 3 LIST(ListType), 4 ENUM(EnumType), 5 DECIMAL(DecimalType),
        6 DATE(DateType), 7 TIME(TimeType), 8 TIMESTAMP(TimestampType), 10 INTEGER(IntType), 11 UNKNOWN(NullType),
        12 JSON(JsonType), 13 BSON(BsonType), 14 UUID(UUIDType) }
    BloomFilterAlgorithm { 1 BLOCK(SplitBlockAlgorithm) }
    BloomFilterHash { 1 XXHASH(XxHash) }
    BloomFilterCompression { 1 UNCOMPRESSED(Uncompressed) }
    ColumnCryptoMetaData { 1 ENCRYPTIONWITHFOOTERKEY(EncryptionWithFooterKey), 2 ENCRYPTIONWITHCOLUMNKEY(EncryptionWithColumnKey) }
    ColumnOrder { 1 TYPEORDER(TypeDefinedOrder) }
    EncryptionAlgorithm { 1 AESGCMV1(AesGcmV1), 2 AESGCMCTRV1(AesGcmCtrV1) }
}

pub struct Ops {
    pub name: &'static str,
    pub def: fn() -> &'static StructDef,
    pub gen: fn(&mut Gen) -> DynVal,
    pub read_sync: fn(&mut InSync) -> TResult<DynVal>,
    pub read_boxed: fn(&mut InBoxed) -> TResult<DynVal>,
    pub read_async: for<'a> fn(&'a mut InAsync) -> BoxFuture<'a, TResult<DynVal>>,
    pub read_mock: fn(&mut Mock) -> TResult<DynVal>,
    pub read_mock_boxed: fn(&mut Box<Mock>) -> TResult<DynVal>,
    pub read_mock_async: for<'a> fn(&'a mut Mock) -> BoxFuture<'a, TResult<DynVal>>,
}

fn def_of<T: Field>() -> &'static StructDef {
    match T::ty() {
        Ty::Struct(d) => d,
        _ => unreachable!(),
    }
}

macro_rules! table {
    ($($w:literal $name:ident),* $(,)?) => {
        pub fn table() -> &'static [(u64, Ops)] {
            static T: OnceLock<Vec<(u64, Ops)>> = OnceLock::new();
            T.get_or_init(|| vec![$(($w, Ops {
                name: stringify!($name),
                def: def_of::<pf::$name>,
                gen: |g| Box::new(<pf::$name as Field>::gen(g)),
                read_sync: |p| { let v: pf::$name = pf::$name::read_from_in_protocol(p)?; Ok(keep(v)) },
                read_boxed: |p| { let v: pf::$name = pf::$name::read_from_in_protocol(p)?; Ok(keep(v)) },
                read_async: |p| Box::pin(async move { let v: pf::$name = pf::$name::stream_from_in_protocol(p).await?; Ok(keep(v)) }),
                read_mock: |p| { let v: pf::$name = pf::$name::read_from_in_protocol(p)?; Ok(keep(v)) },
                read_mock_boxed: |p| { let v: pf::$name = pf::$name::read_from_in_protocol(p)?; Ok(keep(v)) },
                read_mock_async: |p| Box::pin(async move { let v: pf::$name = pf::$name::stream_from_in_protocol(p).await?; Ok(keep(v)) }),
            })),*])
        }
    };
}

fn keep<T: AnyVal + 'static>(v: T) -> DynVal {
    Box::new(v)
}

// weight name
table! {
    10 FileMetaData, 8 PageHeader, 6 ColumnIndex, 4 OffsetIndex, 4 ColumnMetaData, 4 RowGroup, 4 ColumnChunk,
    4 SchemaElement, 3 BloomFilterHeader, 3 FileCryptoMetaData, 3 LogicalType, 3 Statistics, 2 DataPageHeader,
    2 DataPageHeaderV2, 2 DictionaryPageHeader, 2 KeyValue, 2 SortingColumn, 2 PageEncodingStats, 2 EncryptionAlgorithm,
    2 AesGcmV1, 2 AesGcmCtrV1, 2 EncryptionWithColumnKey, 2 ColumnCryptoMetaData, 2 TimestampType, 2 TimeType, 2 IntType,
    2 DecimalType, 2 TimeUnit, 2 PageLocation, 1 ColumnOrder, 1 BloomFilterAlgorithm, 1 BloomFilterHash,
    1 BloomFilterCompression, 1 StringType, 1 UUIDType, 1 MapType, 1 ListType, 1 EnumType, 1 DateType, 1 NullType,
    1 MilliSeconds, 1 MicroSeconds, 1 NanoSeconds, 1 JsonType, 1 BsonType, 1 IndexPageHeader, 1 SplitBlockAlgorithm,
    1 XxHash, 1 Uncompressed, 1 EncryptionWithFooterKey, 1 TypeDefinedOrder,
}

pub fn pick_ops(t: &mut Tape) -> &'static Ops {
    let tab = table();
    let w: Vec<u64> = tab.iter().map(|x| x.0).collect();
    &tab[t.weighted(&w)].1
}
pub fn ops_by_name(n: &str) -> &'static Ops {
    &table().iter().find(|x| x.1.name == n).unwrap().1
}

/// A value whose generation budget is drawn swarm-style: mostly small, sometimes large.
pub fn gen_value(t: &mut Tape, ops: &'static Ops, size: Size) -> DynVal {
    let (budget, big) = match size {
        Size::Small => (60, false),
        Size::Medium => match t.weighted(&[40, 15, 4, 1]) {
            0 => (60, false),
            1 => (250, false),
            2 => (1500, true),
            _ => (6000, true),
        },
        Size::Mixed => match t.weighted(&[120, 60, 40, 20, 1]) {
            0 => (60, false),
            1 => (250, false),
            2 => (1500, true),
            3 => (160_000, true),
            _ => (4_500_000, true),
        },
    };
    (ops.gen)(&mut Gen::new(t, budget, big))
}
#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Small,
    Medium,
    Mixed,
}

// --- reference semantics of the schema over value trees ---

/// What reading the tree `v` as the struct `d` must give: the known fields in id order, the last
/// occurrence of a repeated field, unknown fields dropped. `Err` if it must be refused.
pub fn resolve(v: &Val, d: &StructDef) -> Result<Val, String> {
    let fields = match v {
        Val::Struct(f) => f,
        _ => return Err("not a struct".into()),
    };
    // every occurrence is read, so every occurrence must be acceptable
    let mut seen: Vec<Option<Val>> = vec![None; d.fields.len()];
    for (id, x) in fields {
        if let Some(k) = d.fields.iter().position(|f| f.id == *id) {
            seen[k] = Some(resolve_ty(x, &d.fields[k].ty)?);
        }
    }
    if d.union && fields.len() != 1 {
        return Err(format!("{} variants in union {}", fields.len(), d.name));
    }
    let mut out = vec![];
    for (k, f) in d.fields.iter().enumerate() {
        match seen[k].take() {
            Some(x) => out.push((f.id, x)),
            None if f.req => return Err(format!("{}.{} missing", d.name, f.name)),
            None => {}
        }
    }
    if d.union && out.is_empty() {
        return Err(format!("unknown variant in union {}", d.name));
    }
    Ok(Val::Struct(out))
}
fn resolve_ty(v: &Val, t: &Ty) -> Result<Val, String> {
    match (t, v) {
        (Ty::Struct(d), _) => resolve(v, d),
        (Ty::List(e), Val::List(w, xs)) => Ok(Val::List(
            *w,
            xs.iter().map(|x| resolve_ty(x, e)).collect::<Result<_, _>>()?,
        )),
        _ => Ok(v.clone()),
    }
}

/// Sort the fields of every struct by id (field order is not part of a value).
pub fn sorted(v: &Val) -> Val {
    match v {
        Val::Struct(f) => {
            let mut g: Vec<(i16, Val)> = f.iter().map(|(i, x)| (*i, sorted(x))).collect();
            g.sort_by_key(|x| x.0);
            Val::Struct(g)
        }
        Val::List(t, xs) => Val::List(*t, xs.iter().map(sorted).collect()),
        v => v.clone(),
    }
}

/// Call `f` on every struct of the tree that the schema knows (pre-order).
pub fn for_each_struct(
    v: &mut Val,
    d: &'static StructDef,
    f: &mut dyn FnMut(&mut Vec<(i16, Val)>, &'static StructDef),
) {
    if let Val::Struct(fs) = v {
        for (id, x) in fs.iter_mut() {
            if let Some(fd) = d.fields.iter().find(|fd| fd.id == *id) {
                each_ty(x, &fd.ty, f);
            }
        }
        f(fs, d);
    }
}
fn each_ty(
    v: &mut Val,
    t: &Ty,
    f: &mut dyn FnMut(&mut Vec<(i16, Val)>, &'static StructDef),
) {
    match (t, v) {
        (Ty::Struct(d), v) => for_each_struct(v, d, f),
        (Ty::List(e), Val::List(_, xs)) if matches!(**e, Ty::Struct(_)) => {
            for x in xs.iter_mut() {
                each_ty(x, e, f)
            }
        }
        _ => {}
    }
}

/// A value tree of the given schema type.
pub fn gen_tree(ty: &Ty, g: &mut Gen) -> Val {
    match ty {
        Ty::Bool => Val::Bool(bool::gen(g)),
        Ty::I8 => Val::I8(i8::gen(g)),
        Ty::I16 => Val::I16(i16::gen(g)),
        Ty::I32 => Val::I32(i32::gen(g)),
        Ty::I64 => Val::I64(i64::gen(g)),
        Ty::Str => Val::Bytes(g.string().into_bytes()),
        Ty::Bin => Val::Bytes(g.bytes()),
        Ty::List(e) => {
            let n = g.list_len().min(20);
            Val::List(e.wire(), (0..n).map(|_| gen_tree(e, g)).collect())
        }
        Ty::Struct(d) if d.union => {
            let k = g.t.draw(d.fields.len() as u64) as usize;
            Val::Struct(vec![(d.fields[k].id, gen_tree(&d.fields[k].ty, g))])
        }
        Ty::Struct(d) => {
            let mut fs = vec![];
            for fd in &d.fields {
                if fd.req || g.t.chance(1, 2) {
                    fs.push((fd.id, gen_tree(&fd.ty, g)));
                }
            }
            Val::Struct(fs)
        }
    }
}
