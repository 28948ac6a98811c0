//! Reference values: plain data with field presence, convertible to and from DynamicMessage.

use crate::model::*;
use crate::src::Src;
use prost_reflect::{DescriptorPool, DynamicMessage, ExtensionDescriptor, MapKey, MessageDescriptor, Value};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub enum RVal {
    Bool(bool),
    I32(i32),
    I64(i64),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    Enum(i32),
    Msg(RMsg),
    List(Vec<RVal>),
    Map(BTreeMap<RKey, RVal>),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum RKey { Bool(bool), I32(i32), I64(i64), U32(u32), U64(u64), Str(String) }

#[derive(Clone, Debug, PartialEq)]
pub enum RUnk { Varint(u64), F32(u32), F64(u64), Len(Vec<u8>), Group(Vec<(u32, RUnk)>) }

#[derive(Clone, Debug)]
pub struct RMsg {
    pub mid: usize,
    /// populated fields only
    pub f: BTreeMap<u32, RVal>,
    /// unknown fields in order of appearance
    pub unk: Vec<(u32, RUnk)>,
}
impl RMsg {
    pub fn new(mid: usize) -> RMsg {
        RMsg { mid, f: BTreeMap::new(), unk: vec![] }
    }
}
impl PartialEq for RVal {
    fn eq(&self, o: &RVal) -> bool {
        use RVal::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (I32(a), I32(b)) => a == b,
            (I64(a), I64(b)) => a == b,
            (U32(a), U32(b)) => a == b,
            (U64(a), U64(b)) => a == b,
            (F32(a), F32(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (F64(a), F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Str(a), Str(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Enum(a), Enum(b)) => a == b,
            (Msg(a), Msg(b)) => a == b,
            (List(a), List(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            _ => false,
        }
    }
}
/// Unknown fields compare per field number (relative order of different numbers is not observable
/// on the wire after re-encoding).
fn unk_by_number(u: &[(u32, RUnk)]) -> BTreeMap<u32, Vec<&RUnk>> {
    let mut m: BTreeMap<u32, Vec<&RUnk>> = BTreeMap::new();
    for (n, v) in u {
        m.entry(*n).or_default().push(v);
    }
    m
}
impl PartialEq for RMsg {
    fn eq(&self, o: &RMsg) -> bool {
        self.mid == o.mid && self.f == o.f && unk_by_number(&self.unk) == unk_by_number(&o.unk)
    }
}

impl RKey {
    pub fn to_val(&self) -> RVal {
        match self {
            RKey::Bool(v) => RVal::Bool(*v),
            RKey::I32(v) => RVal::I32(*v),
            RKey::I64(v) => RVal::I64(*v),
            RKey::U32(v) => RVal::U32(*v),
            RKey::U64(v) => RVal::U64(*v),
            RKey::Str(v) => RVal::Str(v.clone()),
        }
    }
    pub fn to_dyn(&self) -> MapKey {
        match self {
            RKey::Bool(v) => MapKey::Bool(*v),
            RKey::I32(v) => MapKey::I32(*v),
            RKey::I64(v) => MapKey::I64(*v),
            RKey::U32(v) => MapKey::U32(*v),
            RKey::U64(v) => MapKey::U64(*v),
            RKey::Str(v) => MapKey::String(v.clone()),
        }
    }
}
impl RVal {
    pub fn to_key(&self) -> Option<RKey> {
        Some(match self {
            RVal::Bool(v) => RKey::Bool(*v),
            RVal::I32(v) => RKey::I32(*v),
            RVal::I64(v) => RKey::I64(*v),
            RVal::U32(v) => RKey::U32(*v),
            RVal::U64(v) => RKey::U64(*v),
            RVal::Str(v) => RKey::Str(v.clone()),
            _ => return None,
        })
    }
    pub fn as_msg(&self) -> &RMsg {
        match self {
            RVal::Msg(m) => m,
            _ => panic!("harness: not a message"),
        }
    }
}
fn key_from_dyn(k: &MapKey) -> RKey {
    match k {
        MapKey::Bool(v) => RKey::Bool(*v),
        MapKey::I32(v) => RKey::I32(*v),
        MapKey::I64(v) => RKey::I64(*v),
        MapKey::U32(v) => RKey::U32(*v),
        MapKey::U64(v) => RKey::U64(*v),
        MapKey::String(v) => RKey::Str(v.clone()),
    }
}

/// Is `v` the zero/default that an implicit-presence field does not carry?
pub fn is_implicit_default(m: &Model, f: &FieldDef, v: &RVal) -> bool {
    match v {
        RVal::F32(x) => *x == 0.0,
        RVal::F64(x) => *x == 0.0,
        RVal::List(l) => l.is_empty(),
        RVal::Map(l) => l.is_empty(),
        _ => *v == m.default_of(f),
    }
}

// ---- generator --------------------------------------------------------------------------------

#[derive(Clone)]
pub struct VCfg {
    pub depth: u32,
    /// well-known type contents restricted to values with a JSON form
    pub json_safe: bool,
    pub unknown_enum: bool,
    pub unk: bool,
    pub budget: i32,
}
impl Default for VCfg {
    fn default() -> VCfg {
        VCfg { depth: 4, json_safe: false, unknown_enum: true, unk: false, budget: 60 }
    }
}

pub fn gen_scalar(s: &mut Src, m: &Model, ty: Ty, c: &VCfg) -> RVal {
    match ty {
        Ty::Double => RVal::F64(s.f64v()),
        Ty::Float => RVal::F32(s.f32v()),
        Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => RVal::I32(s.i32v()),
        Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => RVal::I64(s.i64v()),
        Ty::Uint32 | Ty::Fixed32 => RVal::U32(s.u32v()),
        Ty::Uint64 | Ty::Fixed64 => RVal::U64(s.u64v()),
        Ty::Bool => RVal::Bool(!s.flip()),
        Ty::String if s.chance(1, 30) => RVal::Str(match s.below(3) {
            // what means something elsewhere
            0 => s.pick(&["NaN", "Infinity", "-inf", "true", "null", "0", "1.5e3", "{}", "[x]", "@type", "NULL_VALUE", "\\", "\"", "'", "a:1", "#", "1s"]).to_string(),
            1 => format!("type.googleapis.com/{}", s.pick(&m.msgs).full_name),
            _ => format!("{}{}", s.pick(&["", ".", "x/"]), s.pick(&m.msgs).full_name),
        }),
        Ty::String => RVal::Str(s.string()),
        Ty::Bytes => RVal::Bytes(s.bytes()),
        Ty::Enum(e) => {
            if m.enums[e].full_name == "google.protobuf.NullValue" {
                return RVal::Enum(0);
            }
            if c.unknown_enum && s.chance(1, 6) {
                RVal::Enum(s.i32v())
            } else {
                RVal::Enum(s.pick(&m.enums[e].values).1)
            }
        }
        _ => unreachable!(),
    }
}

pub fn gen_val(s: &mut Src, m: &Model, ty: Ty, depth: u32, c: &mut VCfg) -> RVal {
    match ty {
        Ty::Message(mid) | Ty::Group(mid) => RVal::Msg(gen_msg(s, m, mid, depth, c)),
        _ => gen_scalar(s, m, ty, c),
    }
}
/// No negative zero where presence is implicit: it equals the default there.
fn unsign_zero(v: &mut RVal) {
    match v {
        RVal::F32(x) if *x == 0.0 => *x = 0.0,
        RVal::F64(x) if *x == 0.0 => *x = 0.0,
        _ => {}
    }
}

pub fn gen_field_value(s: &mut Src, m: &Model, mid: usize, fr: FRef, depth: u32, c: &mut VCfg) -> RVal {
    let f = fr.def();
    if m.is_map(f) {
        let (k, v) = m.map_kv(f);
        let n = 1 + s.size(3, 12);
        let p3 = m.is_proto3(f.ty.msg().unwrap());
        let mut out = BTreeMap::new();
        for _ in 0..n {
            let kv = gen_scalar(s, m, k.ty, c).to_key().unwrap();
            let mut vv = gen_val(s, m, v.ty, depth.saturating_sub(1), c);
            if p3 {
                unsign_zero(&mut vv);
            }
            out.insert(kv, vv);
            if c.budget <= 0 {
                break;
            }
        }
        RVal::Map(out)
    } else if f.card == Card::Repeated {
        let n = 1 + if f.ty.msg().is_some() { s.below(3) as usize } else { s.size(4, 40) };
        let mut out = vec![];
        for _ in 0..n {
            out.push(gen_val(s, m, f.ty, depth.saturating_sub(1), c));
            if c.budget <= 0 {
                break;
            }
        }
        RVal::List(out)
    } else {
        let mut v = gen_val(s, m, f.ty, depth.saturating_sub(1), c);
        if !m.has_presence(mid, fr) {
            unsign_zero(&mut v);
        }
        v
    }
}

/// Makes a message unusually deep, wide or long, once in a while.
pub fn stretch(s: &mut Src, m: &Model, v: &mut RMsg, c: &VCfg) {
    let mid = v.mid;
    if m.files[m.msgs[mid].file].wkt || !s.chance(1, 150) {
        return;
    }
    let small = |d: u32| VCfg { depth: d, budget: 2, ..c.clone() };
    let md = &m.msgs[mid];
    match s.below(3) {
        0 => {
            let own = |f: &&FieldDef| f.ty.msg() == Some(mid) || m.is_map(f) && m.map_kv(f).1.ty.msg() == Some(mid);
            let fs: Vec<&FieldDef> = md.fields.iter().filter(own).collect();
            if fs.is_empty() {
                return;
            }
            let f = *s.pick(&fs);
            let n = if f.card == Card::Repeated { *s.pick(&[20, 40]) } else { *s.pick(&[20, 60, 85]) };
            for _ in 0..n {
                let inner = RVal::Msg(std::mem::replace(v, RMsg::new(mid)));
                let x = if m.is_map(f) {
                    let k = gen_scalar(s, m, m.map_kv(f).0.ty, c).to_key().unwrap();
                    RVal::Map([(k, inner)].into_iter().collect())
                } else if f.card == Card::Repeated {
                    RVal::List(vec![inner])
                } else {
                    inner
                };
                v.f.insert(f.number, x);
            }
        }
        1 => {
            let fs: Vec<&FieldDef> = md.fields.iter().filter(|f| f.card == Card::Repeated).collect();
            if fs.is_empty() {
                return;
            }
            let f = *s.pick(&fs);
            let n = 90 + s.us(220);
            let x = if m.is_map(f) && matches!(m.map_kv(f).1.ty, Ty::String | Ty::Bytes) && s.flip() {
                let (kf, vf) = m.map_kv(f);
                let k = gen_scalar(s, m, kf.ty, c).to_key().unwrap();
                let x = "z".repeat(*s.pick(&[120usize, 16_375, 16_384, 40_000]) + s.us(10));
                RVal::Map([(k, if vf.ty == Ty::String { RVal::Str(x) } else { RVal::Bytes(x.into_bytes()) })].into_iter().collect())
            } else if !m.is_map(f) && f.ty.msg().is_none() && s.flip() {
                let few: Vec<RVal> = (0..4).map(|_| gen_val(s, m, f.ty, 1, &mut small(1))).filter(|v| !matches!(v, RVal::Str(x) if x.len() > 9) && !matches!(v, RVal::Bytes(x) if x.len() > 9)).collect();
                let n = *s.pick(&[500usize, 1000, 2040, 4090, 8190, 16_380]) + s.us(10);
                if few.is_empty() {
                    return;
                }
                RVal::List(few.into_iter().cycle().take(n).collect())
            } else if m.is_map(f) {
                let (kf, vf) = m.map_kv(f);
                let p3 = m.is_proto3(f.ty.msg().unwrap());
                RVal::Map(
                    (0..n)
                        .map(|_| {
                            let k = gen_scalar(s, m, kf.ty, c).to_key().unwrap();
                            let mut x = gen_val(s, m, vf.ty, 1, &mut small(1));
                            if p3 {
                                unsign_zero(&mut x);
                            }
                            (k, x)
                        })
                        .collect(),
                )
            } else {
                RVal::List((0..n).map(|_| gen_val(s, m, f.ty, 1, &mut small(1))).collect())
            };
            v.f.insert(f.number, x);
        }
        _ => {
            let fs: Vec<&FieldDef> = md.fields.iter().filter(|f| f.card != Card::Repeated && f.oneof.is_none() && matches!(f.ty, Ty::String | Ty::Bytes)).collect();
            if fs.is_empty() {
                return;
            }
            let f = *s.pick(&fs);
            let n = *s.pick(&[127usize, 128, 129, 255, 256, 1000, 4095, 4096, 8191, 8192, 16383, 16384, 16385, 40_000]);
            let unit = s.string();
            let mut x: String = "ab".into();
            while x.len() < n && !unit.is_empty() {
                x += &unit;
            }
            while x.len() > n {
                x.pop();
            }
            while x.len() < n {
                x.push('z');
            }
            v.f.insert(f.number, if f.ty == Ty::String { RVal::Str(x) } else { RVal::Bytes(x.into_bytes()) });
        }
    }
}

pub fn gen_msg(s: &mut Src, m: &Model, mid: usize, depth: u32, c: &mut VCfg) -> RMsg {
    let mut out = RMsg::new(mid);
    c.budget -= 1;
    if m.files[m.msgs[mid].file].wkt && c.json_safe {
        crate::wkt::gen_wkt(s, m, mid, depth, c, &mut out);
        return out;
    }
    if c.budget <= 0 {
        return out;
    }
    let dense = s.weighted(&[1, 4, 2]);
    let md = &m.msgs[mid];
    let mut oneof_done: HashMap<usize, ()> = HashMap::new();
    let mut frs: Vec<FRef> = md.fields.iter().map(FRef::F).collect();
    frs.extend(m.exts.iter().filter(|x| x.extendee == mid).map(FRef::X));
    // pick a random member of each oneof rather than always the first
    for fr in frs {
        let f = fr.def();
        if f.ty.msg().is_some() && depth == 0 {
            continue;
        }
        let want = match dense {
            0 => s.chance(1, 6),
            1 => s.chance(1, 2),
            _ => s.chance(9, 10),
        };
        if !want {
            continue;
        }
        if let Some(o) = f.oneof {
            if oneof_done.contains_key(&o) {
                // replace the earlier member sometimes
                if !s.flip() {
                    continue;
                }
                for g in &md.fields {
                    if g.oneof == Some(o) {
                        out.f.remove(&g.number);
                    }
                }
            }
            oneof_done.insert(o, ());
        }
        let wkt_safe = c.json_safe && matches!(f.ty, Ty::Message(x) if m.files[m.msgs[x].file].wkt);
        let v = if s.chance(1, 8) && f.card != Card::Repeated && !wkt_safe {
            m.default_of(f)
        } else {
            gen_field_value(s, m, mid, fr, depth, c)
        };
        if !m.has_presence(mid, fr) && is_implicit_default(m, f, &v) {
            continue;
        }
        out.f.insert(f.number, v);
        if c.budget <= 0 {
            break;
        }
    }
    if c.unk && s.chance(1, 3) {
        let n = 1 + s.below(4);
        for _ in 0..n {
            let num = free_number(s, m, mid);
            out.unk.push((num, gen_unk(s, 2)));
        }
    }
    out
}
pub fn free_number(s: &mut Src, m: &Model, mid: usize) -> u32 {
    let mut n = *s.pick(&[7u32, 77, 16, 2047, 2048, 19500, 536_870_911, 1, 300]);
    while m.field(mid, n).is_some() {
        n = if n >= 536_870_911 { 1 } else { n + 1 };
    }
    n
}
pub fn gen_unk(s: &mut Src, depth: u32) -> RUnk {
    match s.weighted(&[3, 2, 2, 3, if depth > 0 { 2 } else { 0 }]) {
        0 => RUnk::Varint(s.u64v()),
        1 => RUnk::F32(s.u32v()),
        2 => RUnk::F64(s.u64v()),
        3 => RUnk::Len(s.bytes()),
        _ => {
            let n = s.below(4);
            RUnk::Group(
                (0..n)
                    .map(|_| {
                        let num = *s.pick(&[1u32, 2, 15, 16, 3000, 536_870_911]);
                        (num, gen_unk(s, depth - 1))
                    })
                    .collect(),
            )
        }
    }
}

// ---- conversion -------------------------------------------------------------------------------

pub struct Env<'a> {
    pub m: &'a Model,
    pub pool: DescriptorPool,
    pub msgs: Vec<MessageDescriptor>,
    pub exts: Vec<ExtensionDescriptor>,
}
impl<'a> Env<'a> {
    pub fn new(m: &'a Model) -> Result<Env<'a>, String> {
        let pool = m.pool()?;
        Env::with_pool(m, pool)
    }
    pub fn with_pool(m: &'a Model, pool: DescriptorPool) -> Result<Env<'a>, String> {
        let mut msgs = vec![];
        for x in &m.msgs {
            msgs.push(pool.get_message_by_name(&x.full_name).ok_or_else(|| format!("message {} missing from pool", x.full_name))?);
        }
        let mut exts = vec![];
        for x in &m.exts {
            exts.push(pool.get_extension_by_name(&x.full_name).ok_or_else(|| format!("extension {} missing from pool", x.full_name))?);
        }
        Ok(Env { m, pool, msgs, exts })
    }
    pub fn to_val(&self, v: &RVal) -> Value {
        match v {
            RVal::Bool(x) => Value::Bool(*x),
            RVal::I32(x) => Value::I32(*x),
            RVal::I64(x) => Value::I64(*x),
            RVal::U32(x) => Value::U32(*x),
            RVal::U64(x) => Value::U64(*x),
            RVal::F32(x) => Value::F32(*x),
            RVal::F64(x) => Value::F64(*x),
            RVal::Str(x) => Value::String(x.clone()),
            RVal::Bytes(x) => Value::Bytes(x.clone().into()),
            RVal::Enum(x) => Value::EnumNumber(*x),
            RVal::Msg(x) => Value::Message(self.to_dyn(x)),
            RVal::List(x) => Value::List(x.iter().map(|v| self.to_val(v)).collect()),
            RVal::Map(x) => Value::Map(x.iter().map(|(k, v)| (k.to_dyn(), self.to_val(v))).collect()),
        }
    }
    /// Builds through the reflection setters (unknown fields are added by merging their bytes).
    pub fn to_dyn(&self, r: &RMsg) -> DynamicMessage {
        let mut d = DynamicMessage::new(self.msgs[r.mid].clone());
        for (n, v) in &r.f {
            match self.m.field(r.mid, *n).expect("harness: field") {
                FRef::F(_) => d.set_field_by_number(*n, self.to_val(v)),
                FRef::X(x) => {
                    let i = self.m.exts.iter().position(|y| y.full_name == x.full_name).unwrap();
                    d.set_extension(&self.exts[i], self.to_val(v))
                }
            }
        }
        if !r.unk.is_empty() {
            let b = crate::wire::enc_unks(&r.unk);
            prost::Message::merge(&mut d, &b[..]).expect("harness: merging unknown fields");
        }
        d
    }
    pub fn from_val(&self, v: &Value) -> RVal {
        match v {
            Value::Bool(x) => RVal::Bool(*x),
            Value::I32(x) => RVal::I32(*x),
            Value::I64(x) => RVal::I64(*x),
            Value::U32(x) => RVal::U32(*x),
            Value::U64(x) => RVal::U64(*x),
            Value::F32(x) => RVal::F32(*x),
            Value::F64(x) => RVal::F64(*x),
            Value::String(x) => RVal::Str(x.clone()),
            Value::Bytes(x) => RVal::Bytes(x.to_vec()),
            Value::EnumNumber(x) => RVal::Enum(*x),
            Value::Message(x) => RVal::Msg(self.from_dyn(x)),
            Value::List(x) => RVal::List(x.iter().map(|v| self.from_val(v)).collect()),
            Value::Map(x) => RVal::Map(x.iter().map(|(k, v)| (key_from_dyn(k), self.from_val(v))).collect()),
        }
    }
    pub fn from_dyn(&self, d: &DynamicMessage) -> RMsg {
        use prost_reflect::ReflectMessage;
        let name = d.descriptor().full_name().to_string();
        let mid = self.m.find_msg(&name).unwrap_or(usize::MAX);
        let mut r = RMsg::new(mid);
        if mid == usize::MAX {
            return r;
        }
        for f in &self.m.msgs[mid].fields {
            if d.has_field_by_number(f.number) {
                r.f.insert(f.number, self.from_val(&d.get_field_by_number(f.number).unwrap()));
            }
        }
        for (i, x) in self.m.exts.iter().enumerate() {
            if x.extendee == mid && d.has_extension(&self.exts[i]) {
                r.f.insert(x.f.number, self.from_val(&d.get_extension(&self.exts[i])));
            }
        }
        if d.unknown_fields().next().is_some() {
            let mut b = vec![];
            for u in d.unknown_fields() {
                u.encode(&mut b);
            }
            r.unk = crate::wire::dec_unks(&b).expect("harness: unknown field bytes");
        }
        r
    }
}
pub fn has_unknown(r: &RMsg) -> bool {
    !r.unk.is_empty() || r.f.values().any(val_has_unknown)
}
fn val_has_unknown(v: &RVal) -> bool {
    match v {
        RVal::Msg(m) => has_unknown(m),
        RVal::List(l) => l.iter().any(val_has_unknown),
        RVal::Map(l) => l.values().any(val_has_unknown),
        _ => false,
    }
}
pub fn strip_unknown(r: &mut RMsg) {
    r.unk.clear();
    for v in r.f.values_mut() {
        strip_val(v);
    }
}
fn strip_val(v: &mut RVal) {
    match v {
        RVal::Msg(m) => strip_unknown(m),
        RVal::List(l) => l.iter_mut().for_each(strip_val),
        RVal::Map(l) => l.values_mut().for_each(strip_val),
        _ => {}
    }
}
/// Number of populated leaves; used for non-triviality.
pub fn weight(r: &RMsg) -> usize {
    r.unk.len() + r.f.values().map(|v| 1 + vweight(v)).sum::<usize>()
}
fn vweight(v: &RVal) -> usize {
    match v {
        RVal::Msg(m) => weight(m),
        RVal::List(l) => l.iter().map(vweight).sum(),
        RVal::Map(l) => l.values().map(vweight).sum(),
        _ => 0,
    }
}
/// First difference, for reports.
pub fn diff(m: &Model, a: &RMsg, b: &RMsg) -> String {
    let mut out = String::new();
    let name = m.msgs.get(a.mid).map(|x| x.full_name.clone()).unwrap_or_default();
    let keys: std::collections::BTreeSet<u32> = a.f.keys().chain(b.f.keys()).copied().collect();
    for k in keys {
        match (a.f.get(&k), b.f.get(&k)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(RVal::Msg(x)), Some(RVal::Msg(y))) => out += &format!("{name}#{k} -> {}", diff(m, x, y)),
            (x, y) => {
                let mut d = format!("{name}#{k}: expected {x:?} got {y:?}; ");
                if d.len() > 600 {
                    let mut i = 600;
                    while !d.is_char_boundary(i) { i -= 1; }
                    d.truncate(i);
                }
                out += &d
            }
        }
    }
    if unk_by_number(&a.unk) != unk_by_number(&b.unk) {
        out += &format!("{name} unknown: expected {:?} got {:?}", a.unk, b.unk);
    }
    out
}

/// Now and then, asks for mutable access to absent lists, maps and plain fields, which leaves them absent.
pub fn touch(d: &mut DynamicMessage, s: &mut Src, exts: bool) {
    if !s.chance(1, 8) {
        return;
    }
    let desc = prost_reflect::ReflectMessage::descriptor(d);
    for f in desc.fields() {
        if !f.supports_presence() && !d.has_field(&f) && s.flip() {
            d.get_field_mut(&f);
        }
    }
    if exts {
        for x in desc.extensions() {
            if x.is_list() && !d.has_extension(&x) && s.flip() {
                d.get_extension_mut(&x);
            }
        }
    }
}
