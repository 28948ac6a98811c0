//! Reference JSON mapping: expected documents, varied spellings of them, and a plain JSON parser.

use crate::model::*;
use crate::src::Src;
use crate::value::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Null,
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    /// number text
    Raw(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
/// What a node of a document stands for (used to aim faults).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Site {
    None,
    Int(i128, i128),
    F32,
    F64,
    Bool,
    Str,
    Bytes,
    Enum(usize),
    NullEnum,
    /// object whose members are the fields of this message (true: inside an Any)
    Msg(usize, bool),
    /// null is a valid element?
    List(bool),
    Map(Ty, bool),
    Wkt(usize),
    AnyWkt,
}
#[derive(Clone, Debug, PartialEq)]
pub struct J {
    pub k: K,
    pub site: Site,
}
pub fn j(k: K) -> J {
    J { k, site: Site::None }
}
pub fn js(k: K, site: Site) -> J {
    J { k, site }
}

#[derive(Clone, Copy, Debug)]
pub struct JOpts {
    pub str64: bool,
    pub enum_num: bool,
    pub proto_names: bool,
    pub skip_default: bool,
    /// choose among equivalent spellings at random
    pub spell: bool,
    /// name only the options that differ from their documented defaults
    pub sparse: bool,
}
impl JOpts {
    pub fn canonical() -> JOpts {
        JOpts { str64: true, enum_num: false, proto_names: false, skip_default: true, spell: false, sparse: false }
    }
    pub fn random(s: &mut Src) -> JOpts {
        JOpts { str64: !s.flip(), enum_num: s.flip(), proto_names: s.flip(), skip_default: !s.flip(), spell: false, sparse: s.chance(1, 3) }
    }
    pub fn spelled() -> JOpts {
        JOpts { spell: true, ..JOpts::canonical() }
    }
    pub fn lib(&self) -> prost_reflect::SerializeOptions {
        let mut o = if self.sparse { Default::default() } else { prost_reflect::SerializeOptions::new() };
        let all = !self.sparse;
        if all || !self.str64 {
            o = o.stringify_64_bit_integers(self.str64);
        }
        if all || self.enum_num {
            o = o.use_enum_numbers(self.enum_num);
        }
        if all || self.proto_names {
            o = o.use_proto_field_name(self.proto_names);
        }
        if all || !self.skip_default {
            o = o.skip_default_fields(self.skip_default);
        }
        o
    }
}

pub fn is_wkt(name: &str) -> bool {
    WKT_NAMES.contains(&name)
}
/// Does JSON null denote a value (rather than absence) for this type?
pub fn null_is_value(m: &Model, ty: Ty) -> bool {
    match ty {
        Ty::Message(x) => m.msgs[x].full_name == "google.protobuf.Value",
        Ty::Enum(e) => m.enums[e].full_name == "google.protobuf.NullValue",
        _ => false,
    }
}

// ---- base64, time, field masks ---------------------------------------------------------------

pub fn base64(b: &[u8], url: bool, pad: bool) -> String {
    let abc: &[u8] = if url {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    } else {
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    };
    let mut o = String::new();
    for ch in b.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() {
                o.push(abc[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else if pad {
                o.push('=');
            }
        }
    }
    o
}
/// (year, month, day) of a day number relative to 1970-01-01 (proleptic Gregorian).
pub fn civil(days: i64) -> (i64, u32, u32) {
    let mut y = 1970;
    let mut d = days;
    // jump whole 400-year cycles, then walk
    let cyc = d.div_euclid(146_097);
    d = d.rem_euclid(146_097);
    y += 400 * cyc;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut mo = 0;
    while d >= ml[mo] {
        d -= ml[mo];
        mo += 1;
    }
    (y, mo as u32 + 1, d as u32 + 1)
}
fn frac(n: u32, s: &mut Src, spell: bool) -> String {
    let full = format!("{n:09}");
    if spell {
        let min = full.trim_end_matches('0').len();
        let digits = min + s.us(10 - min);
        return if digits == 0 { String::new() } else { format!(".{}", &full[..digits]) };
    }
    if n == 0 {
        String::new()
    } else if n % 1_000_000 == 0 {
        format!(".{}", &full[..3])
    } else if n % 1000 == 0 {
        format!(".{}", &full[..6])
    } else {
        format!(".{full}")
    }
}
pub fn ts_text(secs: i64, nanos: u32, s: &mut Src, spell: bool) -> String {
    let mut off = 0i64;
    if spell && s.flip() {
        off = s.range(-(23 * 60 + 59), 23 * 60 + 59);
        if s.flip() {
            off -= off % 60;
        }
        let l = secs + off * 60;
        if !(crate::wkt::TS_MIN..=crate::wkt::TS_MAX).contains(&l) {
            off = 0;
        }
    }
    let l = secs + off * 60;
    let (y, mo, d) = civil(l.div_euclid(86400));
    let t = l.rem_euclid(86400);
    let z = if off == 0 && !(spell && s.chance(1, 4)) {
        "Z".to_string()
    } else {
        format!("{}{:02}:{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60)
    };
    format!("{y:04}-{mo:02}-{d:02}T{:02}:{:02}:{:02}{}{z}", t / 3600, t / 60 % 60, t % 60, frac(nanos, s, spell))
}
pub fn dur_text(secs: i64, nanos: i32, s: &mut Src, spell: bool) -> String {
    let neg = secs < 0 || nanos < 0;
    format!("{}{}{}s", if neg { "-" } else { "" }, secs.unsigned_abs(), frac(nanos.unsigned_abs(), s, spell))
}
pub fn path_camel(p: &str) -> String {
    let mut o = String::new();
    let mut up = false;
    for c in p.chars() {
        if c == '_' {
            up = true;
        } else if up {
            o.push(c.to_ascii_uppercase());
            up = false;
        } else {
            o.push(c);
        }
    }
    o
}

// ---- documents -------------------------------------------------------------------------------

pub fn int_range(ty: Ty) -> (i128, i128) {
    match ty {
        Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => (i32::MIN as i128, i32::MAX as i128),
        Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => (i64::MIN as i128, i64::MAX as i128),
        Ty::Uint32 | Ty::Fixed32 => (0, u32::MAX as i128),
        _ => (0, u64::MAX as i128),
    }
}
fn int_doc(v: i128, wide: bool, ty: Ty, o: &JOpts, s: &mut Src) -> J {
    let (lo, hi) = int_range(ty);
    let site = Site::Int(lo, hi);
    if o.spell {
        let exact = v.unsigned_abs() <= 1 << 53;
        if !exact && (v as f64) as i128 == v && s.chance(1, 3) {
            // a large number that a double holds
            return js(K::Raw(if s.flip() { format!("{v}.0") } else { format!("{v}e0") }), site);
        }
        return match s.weighted(&[3, 3, if exact { 3 } else { 0 }]) {
            0 => js(K::Raw(v.to_string()), site),
            1 => js(K::Str(v.to_string()), site),
            _ => js(
                K::Raw(match s.below(4) {
                    0 => format!("{v}.0"),
                    1 => format!("{v}e0"),
                    2 if v != 0 => format!("{v}0e-1"),
                    _ if v % 100 == 0 => format!("{}E+2", v / 100),
                    _ => format!("{v}.000"),
                }),
                site,
            ),
        };
    }
    if wide && o.str64 {
        js(K::Str(v.to_string()), site)
    } else {
        js(K::Int(v), site)
    }
}
fn special(v: f64) -> Option<&'static str> {
    if v.is_nan() {
        Some("NaN")
    } else if v == f64::INFINITY {
        Some("Infinity")
    } else if v == f64::NEG_INFINITY {
        Some("-Infinity")
    } else {
        None
    }
}
fn float_spell(v: f64, plain: String, exp: String, s: &mut Src, site: Site, quote: bool) -> J {
    let int = v.fract() == 0.0 && v.abs() <= 9007199254740992.0 && !(v == 0.0 && v.is_sign_negative());
    let mut t = match s.below(3) {
        0 => plain,
        1 => exp,
        _ if int => format!("{}", v as i64),
        _ => plain,
    };
    if !int && !t.contains(['.', 'e', 'E']) && t.len() > 15 {
        t += ".0";
    }
    if v == 0.0 && v.is_sign_negative() {
        t = "-0.0".into();
    }
    if quote && s.chance(1, 3) { js(K::Str(t), site) } else { js(K::Raw(t), site) }
}
pub fn scalar_doc(m: &Model, ty: Ty, v: &RVal, o: &JOpts, s: &mut Src) -> J {
    match v {
        RVal::Bool(b) => js(K::Bool(*b), Site::Bool),
        RVal::I32(x) => int_doc(*x as i128, false, ty, o, s),
        RVal::U32(x) => int_doc(*x as i128, false, ty, o, s),
        RVal::I64(x) => int_doc(*x as i128, true, ty, o, s),
        RVal::U64(x) => int_doc(*x as i128, true, ty, o, s),
        RVal::F32(x) => match special(*x as f64) {
            Some(t) => js(K::Str(t.into()), Site::F32),
            None if o.spell => float_spell(*x as f64, format!("{x}"), format!("{x:e}"), s, Site::F32, true),
            None => js(K::F32(*x), Site::F32),
        },
        RVal::F64(x) => match special(*x) {
            Some(t) => js(K::Str(t.into()), Site::F64),
            None if o.spell => float_spell(*x, format!("{x}"), format!("{x:e}"), s, Site::F64, true),
            None => js(K::F64(*x), Site::F64),
        },
        RVal::Str(x) => js(K::Str(x.clone()), Site::Str),
        RVal::Bytes(x) => {
            let (url, pad) = if o.spell { (s.flip(), !s.flip()) } else { (false, true) };
            js(K::Str(base64(x, url, pad)), Site::Bytes)
        }
        RVal::Enum(x) => {
            let Ty::Enum(e) = ty else { unreachable!() };
            let ed = &m.enums[e];
            if ed.full_name == "google.protobuf.NullValue" {
                if o.spell && s.chance(1, 3) {
                    return js(K::Str("NULL_VALUE".into()), Site::NullEnum);
                }
                return js(K::Null, Site::NullEnum);
            }
            let names: Vec<&String> = ed.values.iter().filter(|v| v.1 == *x).map(|v| &v.0).collect();
            let num = if o.spell { s.flip() } else { o.enum_num };
            if num || names.is_empty() {
                if o.spell { js(K::Raw(x.to_string()), Site::Enum(e)) } else { js(K::Int(*x as i128), Site::Enum(e)) }
            } else {
                // an alias may be printed under any of its names: compared through `same`
                let k = if o.spell { s.us(names.len()) } else { 0 };
                js(K::Str(names[k].clone()), Site::Enum(e))
            }
        }
        _ => unreachable!(),
    }
}
pub fn key_text(k: &RKey) -> String {
    match k {
        RKey::Bool(v) => v.to_string(),
        RKey::I32(v) => v.to_string(),
        RKey::I64(v) => v.to_string(),
        RKey::U32(v) => v.to_string(),
        RKey::U64(v) => v.to_string(),
        RKey::Str(v) => v.clone(),
    }
}
fn elem_doc(m: &Model, ty: Ty, v: &RVal, o: &JOpts, s: &mut Src) -> J {
    match v {
        RVal::Msg(x) => doc(m, x, o, s),
        _ => scalar_doc(m, ty, v, o, s),
    }
}
pub fn field_doc(m: &Model, f: &FieldDef, v: &RVal, o: &JOpts, s: &mut Src) -> J {
    match v {
        RVal::List(l) => js(
            K::Arr(l.iter().map(|x| elem_doc(m, f.ty, x, o, s)).collect()),
            Site::List(null_is_value(m, f.ty)),
        ),
        RVal::Map(mp) => {
            let (k, vf) = m.map_kv(f);
            let mut es: Vec<(String, J)> = mp.iter().map(|(kk, x)| (key_text(kk), elem_doc(m, vf.ty, x, o, s))).collect();
            if o.spell {
                s.shuffle(&mut es);
            }
            js(K::Obj(es), Site::Map(k.ty, null_is_value(m, vf.ty)))
        }
        _ => elem_doc(m, f.ty, v, o, s),
    }
}
fn empty_of(m: &Model, f: &FieldDef) -> RVal {
    if m.is_map(f) {
        RVal::Map(BTreeMap::new())
    } else if f.card == Card::Repeated {
        RVal::List(vec![])
    } else {
        m.default_of(f)
    }
}
fn fields_doc(m: &Model, r: &RMsg, o: &JOpts, s: &mut Src) -> Vec<(String, J)> {
    let mut out = vec![];
    let md = &m.msgs[r.mid];
    for f in &md.fields {
        let name = |s: &mut Src| {
            let proto = if o.spell { s.chance(1, 3) && !m.shadowed(r.mid, f) } else { o.proto_names };
            if proto { f.name.clone() } else { m.json_name(f) }
        };
        match r.f.get(&f.number) {
            Some(v) => {
                let n = name(s);
                out.push((n, field_doc(m, f, v, o, s)))
            }
            None => {
                let implicit = !m.has_presence(r.mid, FRef::F(f));
                if !o.skip_default && implicit {
                    out.push((name(s), field_doc(m, f, &empty_of(m, f), o, s)));
                } else if o.spell && s.chance(1, 6) && (!null_is_value(m, f.ty) || f.card == Card::Repeated) {
                    out.push((name(s), j(K::Null)));
                } else if o.spell && implicit && s.chance(1, 6) {
                    out.push((name(s), field_doc(m, f, &empty_of(m, f), o, s)));
                }
            }
        }
    }
    for x in m.exts.iter().filter(|x| x.extendee == r.mid) {
        if let Some(v) = r.f.get(&x.f.number) {
            out.push((format!("[{}]", x.full_name), field_doc(m, &x.f, v, o, s)));
        } else if o.spell && s.chance(1, 8) && (!null_is_value(m, x.f.ty) || x.f.card == Card::Repeated) {
            out.push((format!("[{}]", x.full_name), j(K::Null)));
        }
    }
    if o.spell {
        s.shuffle(&mut out);
    }
    out
}
fn i64f(r: &RMsg, n: u32) -> i64 {
    match r.f.get(&n) {
        Some(RVal::I64(v)) => *v,
        Some(RVal::I32(v)) => *v as i64,
        _ => 0,
    }
}
fn strf(r: &RMsg, n: u32) -> String {
    match r.f.get(&n) {
        Some(RVal::Str(v)) => v.clone(),
        _ => String::new(),
    }
}
/// The document for a message whose well-known content is valid.
pub fn doc(m: &Model, r: &RMsg, o: &JOpts, s: &mut Src) -> J {
    let name = m.msgs[r.mid].full_name.as_str();
    if !is_wkt(name) {
        return js(K::Obj(fields_doc(m, r, o, s)), Site::Msg(r.mid, false));
    }
    let site = Site::Wkt(r.mid);
    match name {
        "google.protobuf.Timestamp" => js(K::Str(ts_text(i64f(r, 1), i64f(r, 2) as u32, s, o.spell)), site),
        "google.protobuf.Duration" => js(K::Str(dur_text(i64f(r, 1), i64f(r, 2) as i32, s, o.spell)), site),
        "google.protobuf.FieldMask" => {
            let mut ps = vec![];
            if let Some(RVal::List(l)) = r.f.get(&1) {
                for p in l {
                    if let RVal::Str(p) = p {
                        ps.push(path_camel(p));
                    }
                }
            }
            js(K::Str(ps.join(",")), site)
        }
        "google.protobuf.Empty" => js(K::Obj(vec![]), Site::Wkt(r.mid)),
        "google.protobuf.Struct" => {
            let mut es = vec![];
            if let Some(RVal::Map(mp)) = r.f.get(&1) {
                for (k, v) in mp {
                    es.push((key_text(k), elem_doc(m, Ty::Bool, v, o, s)));
                }
            }
            if o.spell {
                s.shuffle(&mut es);
            }
            js(K::Obj(es), site)
        }
        "google.protobuf.ListValue" => {
            let mut es = vec![];
            if let Some(RVal::List(l)) = r.f.get(&1) {
                for v in l {
                    es.push(elem_doc(m, Ty::Bool, v, o, s));
                }
            }
            js(K::Arr(es), site)
        }
        "google.protobuf.Value" => match r.f.iter().next() {
            None => js(K::Null, Site::None),
            Some((_, RVal::Enum(_))) => js(K::Null, Site::None),
            Some((_, RVal::F64(x))) => {
                if o.spell { float_spell(*x, format!("{x}"), format!("{x:e}"), s, Site::None, false) } else { j(K::F64(*x)) }
            }
            Some((_, RVal::Str(x))) => j(K::Str(x.clone())),
            Some((_, RVal::Bool(x))) => j(K::Bool(*x)),
            Some((_, v)) => J { site: Site::None, ..elem_doc(m, Ty::Bool, v, o, s) },
        },
        "google.protobuf.Any" => {
            let url = strf(r, 1);
            if url.is_empty() {
                return js(K::Obj(vec![]), Site::None);
            }
            let inner = any_inner(m, r).expect("harness: Any content");
            let iname = m.msgs[inner.mid].full_name.as_str();
            let ty = ("@type".to_string(), j(K::Str(url)));
            if is_wkt(iname) {
                let mut es = vec![ty, ("value".to_string(), doc(m, &inner, o, s))];
                if o.spell {
                    s.shuffle(&mut es);
                }
                js(K::Obj(es), Site::AnyWkt)
            } else {
                let mut es = vec![ty];
                es.extend(fields_doc(m, &inner, o, s));
                if o.spell {
                    s.shuffle(&mut es);
                }
                js(K::Obj(es), Site::Msg(inner.mid, true))
            }
        }
        _ => {
            // wrappers
            let f = &m.msgs[r.mid].fields[0];
            let v = r.f.get(&1).cloned().unwrap_or_else(|| m.zero(f.ty));
            scalar_doc(m, f.ty, &v, o, s)
        }
    }
}
pub fn any_inner(m: &Model, r: &RMsg) -> Option<RMsg> {
    let url = strf(r, 1);
    let t = m.find_msg(url.rsplit('/').next()?)?;
    let b = match r.f.get(&2) {
        Some(RVal::Bytes(b)) => b.clone(),
        _ => vec![],
    };
    crate::wire::dec(m, t, &b).ok()
}

// ---- text ------------------------------------------------------------------------------------

fn str_text(t: &str, s: &mut Src, spell: bool, out: &mut String) {
    out.push('"');
    for c in t.chars() {
        if spell && s.chance(1, 12) {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                if s.flip() {
                    *out += &format!("\\u{u:04x}");
                } else {
                    *out += &format!("\\u{u:04X}");
                }
            }
            continue;
        }
        match c {
            '"' => *out += "\\\"",
            '\\' => *out += "\\\\",
            '\n' => *out += "\\n",
            '\r' => *out += "\\r",
            '\t' => *out += "\\t",
            '/' if spell && s.chance(1, 3) => *out += "\\/",
            c if (c as u32) < 0x20 => *out += &format!("\\u{:04x}", c as u32),
            c => out.push(c),
        }
    }
    out.push('"');
}
fn ws(s: &mut Src, spell: bool, out: &mut String) {
    if spell && s.chance(1, 8) {
        *out += *s.pick(&[" ", "\n", "\t", "\r\n", "  "]);
    }
}
pub fn text(d: &J, s: &mut Src, spell: bool) -> String {
    let mut o = String::new();
    emit(d, s, spell, &mut o);
    o
}
fn emit(d: &J, s: &mut Src, spell: bool, out: &mut String) {
    ws(s, spell, out);
    match &d.k {
        K::Null => *out += "null",
        K::Bool(b) => *out += if *b { "true" } else { "false" },
        K::Int(v) => *out += &v.to_string(),
        K::F32(v) => *out += &format!("{v:?}"),
        K::F64(v) => *out += &format!("{v:?}"),
        K::Raw(t) => *out += t,
        K::Str(t) => str_text(t, s, spell, out),
        K::Arr(l) => {
            out.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                emit(x, s, spell, out);
            }
            ws(s, spell, out);
            out.push(']');
        }
        K::Obj(l) => {
            out.push('{');
            for (i, (k, x)) in l.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(s, spell, out);
                str_text(k, s, spell, out);
                ws(s, spell, out);
                out.push(':');
                emit(x, s, spell, out);
            }
            ws(s, spell, out);
            out.push('}');
        }
    }
    ws(s, spell, out);
}

/// Strict JSON parser that keeps number text, member order and duplicates.
pub fn parse(t: &str) -> Result<J, String> {
    let mut p = P { b: t.as_bytes(), i: 0 };
    let v = p.value()?;
    p.sp();
    if p.i != p.b.len() {
        return Err(format!("trailing characters at {}", p.i));
    }
    Ok(v)
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn sp(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn lit(&mut self, t: &str, k: K) -> Result<J, String> {
        if self.b[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Ok(j(k))
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.sp();
        match self.peek() {
            b'n' => self.lit("null", K::Null),
            b't' => self.lit("true", K::Bool(true)),
            b'f' => self.lit("false", K::Bool(false)),
            b'"' => Ok(j(K::Str(self.string()?))),
            b'[' => {
                self.i += 1;
                let mut l = vec![];
                self.sp();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(j(K::Arr(l)));
                }
                loop {
                    l.push(self.value()?);
                    self.sp();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(j(K::Arr(l)));
                        }
                        _ => return Err(format!("bad array at {}", self.i)),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut l = vec![];
                self.sp();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(j(K::Obj(l)));
                }
                loop {
                    self.sp();
                    let k = self.string()?;
                    self.sp();
                    if self.peek() != b':' {
                        return Err(format!("missing colon at {}", self.i));
                    }
                    self.i += 1;
                    l.push((k, self.value()?));
                    self.sp();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(j(K::Obj(l)));
                        }
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                }
            }
            _ => {
                let st = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
                let body = t.strip_prefix('-').unwrap_or(t);
                if body.is_empty() || !body.as_bytes()[0].is_ascii_digit() || t.parse::<f64>().is_err() {
                    return Err(format!("bad number {t:?} at {st}"));
                }
                Ok(j(K::Raw(t.to_string())))
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' {
            return Err(format!("expected string at {}", self.i));
        }
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => o.push(e),
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'r' => o.push(b'\r'),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if self.peek() != b'\\' {
                                    return Err("lone surrogate".into());
                                }
                                self.i += 2;
                                let lo = self.hex4()?;
                                u = 0x10000 + ((u - 0xd800) << 10) + (lo.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            let ch = char::from_u32(u).ok_or("bad escape")?;
                            let mut b = [0; 4];
                            o.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                        }
                        _ => return Err(format!("bad escape at {}", self.i)),
                    }
                }
                c if c < 0x20 => return Err(format!("control character in string at {}", self.i)),
                c => o.push(c),
            }
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let t = self.b.get(self.i..self.i + 4).ok_or("short escape")?;
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(t).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())
    }
}

/// Does the parsed document `b` say what the expected document `a` says?  Object members compare
/// as a set; a number compares by the value it denotes in its field's type.
pub fn same(m: &Model, a: &J, b: &J, path: &str) -> Result<(), String> {
    let bad = || Err(format!("at {path}: expected {:?}, got {:?}", a.k, b.k));
    match (&a.k, &b.k) {
        (K::Null, K::Null) => Ok(()),
        (K::Bool(x), K::Bool(y)) if x == y => Ok(()),
        (K::Int(x), K::Raw(y)) if y.parse::<i128>() == Ok(*x) => Ok(()),
        (K::F32(x), K::Raw(y)) if y.parse::<f32>().map(|y| y.to_bits()) == Ok(x.to_bits()) => Ok(()),
        (K::F64(x), K::Raw(y)) if y.parse::<f64>().map(|y| y.to_bits()) == Ok(x.to_bits()) => Ok(()),
        (K::Str(x), K::Str(y)) if x == y => Ok(()),
        (K::Str(x), K::Str(y)) => {
            if let Site::Enum(e) = a.site {
                let num = |n: &str| m.enums[e].values.iter().find(|v| v.0 == n).map(|v| v.1);
                if num(x).is_some() && num(x) == num(y) {
                    return Ok(());
                }
            }
            bad()
        }
        (K::Arr(x), K::Arr(y)) => {
            if x.len() != y.len() {
                return Err(format!("at {path}: expected {} elements, got {}", x.len(), y.len()));
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                same(m, p, q, &format!("{path}[{i}]"))?;
            }
            Ok(())
        }
        (K::Obj(x), K::Obj(y)) => {
            let mut seen = std::collections::HashMap::new();
            for (k, v) in y {
                if seen.insert(k.as_str(), v).is_some() {
                    return Err(format!("at {path}: duplicate member {k:?}"));
                }
            }
            for (k, v) in x {
                match seen.remove(k.as_str()) {
                    Some(w) => same(m, v, w, &format!("{path}.{k}"))?,
                    None => return Err(format!("at {path}: missing member {k:?} = {:?}", v.k)),
                }
            }
            if let Some((k, v)) = seen.into_iter().next() {
                return Err(format!("at {path}: unexpected member {k:?} = {:?}", v.k));
            }
            Ok(())
        }
        _ => bad(),
    }
}
/// Paths (child indices) of every node.
pub fn nodes(d: &J) -> Vec<(Vec<usize>, Site)> {
    fn go(d: &J, p: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Site)>) {
        out.push((p.clone(), d.site));
        match &d.k {
            K::Arr(l) => {
                for (i, x) in l.iter().enumerate() {
                    p.push(i);
                    go(x, p, out);
                    p.pop();
                }
            }
            K::Obj(l) => {
                for (i, (_, x)) in l.iter().enumerate() {
                    p.push(i);
                    go(x, p, out);
                    p.pop();
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    go(d, &mut vec![], &mut out);
    out
}
pub fn at<'a>(d: &'a mut J, p: &[usize]) -> &'a mut J {
    let mut d = d;
    for &i in p {
        d = match &mut d.k {
            K::Arr(l) => &mut l[i],
            K::Obj(l) => &mut l[i].1,
            _ => unreachable!(),
        };
    }
    d
}

/// Equality where Any contents compare decoded.
pub fn any_equal(m: &Model, a: &RMsg, b: &RMsg) -> bool {
    canon_any(m, a) == canon_any(m, b)
}
pub fn canon_any(m: &Model, r: &RMsg) -> RMsg {
    fn val(m: &Model, v: &RVal) -> RVal {
        match v {
            RVal::Msg(x) => RVal::Msg(canon_any(m, x)),
            RVal::List(l) => RVal::List(l.iter().map(|v| val(m, v)).collect()),
            RVal::Map(l) => RVal::Map(l.iter().map(|(k, v)| (k.clone(), val(m, v))).collect()),
            v => v.clone(),
        }
    }
    let mut o = r.clone();
    if m.msgs[r.mid].full_name == "google.protobuf.Any" {
        if let Some(inner) = any_inner(m, r) {
            o.f.remove(&2);
            // kept under a number Any does not use
            o.f.insert(3, RVal::Msg(canon_any(m, &inner)));
        }
        return o;
    }
    for v in o.f.values_mut() {
        *v = val(m, v);
    }
    o
}
