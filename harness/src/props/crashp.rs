//! C23: malformed descriptors.

use super::descp::*;
use super::histp::{put_varint, set_bytes};
use crate::desc;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::src::Src;
use crate::value::*;
use crate::wire;
use prost::Message as _;
use prost_reflect::*;
use prost_types::{FileDescriptorProto, FileDescriptorSet};
use std::collections::HashMap;

pub const C23: Prop = Prop {
    id: "C23",
    run: c23,
    quick: 120_000,
    thorough: 1_500_000,
    rule: "the descriptors were mutated, and either rejected or used through all descriptors and messages",
};

// ---- mutation of descriptors as values ----------------------------------------------------------

fn walk<'a>(v: &'a mut RMsg, path: &mut Vec<(u32, usize)>, want: &mut usize, out: &mut Option<Vec<(u32, usize)>>) {
    if *want == 0 {
        *out = Some(path.clone());
        return;
    }
    *want -= 1;
    for (n, x) in v.f.iter_mut() {
        match x {
            RVal::Msg(m) => {
                path.push((*n, 0));
                walk(m, path, want, out);
                path.pop();
            }
            RVal::List(l) => {
                for (i, y) in l.iter_mut().enumerate() {
                    if let RVal::Msg(m) = y {
                        path.push((*n, i));
                        walk(m, path, want, out);
                        path.pop();
                        if out.is_some() {
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        if out.is_some() {
            return;
        }
    }
}
fn nodes(r: &RMsg) -> usize {
    1 + r
        .f
        .values()
        .map(|v| match v {
            RVal::Msg(m) => nodes(m),
            RVal::List(l) => l.iter().map(|v| if let RVal::Msg(m) = v { nodes(m) } else { 0 }).sum(),
            _ => 0,
        })
        .sum::<usize>()
}
fn node_mut<'a>(r: &'a mut RMsg, path: &[(u32, usize)]) -> &'a mut RMsg {
    let mut cur = r;
    for (n, i) in path {
        cur = match cur.f.get_mut(n).unwrap() {
            RVal::Msg(m) => m,
            RVal::List(l) => match &mut l[*i] {
                RVal::Msg(m) => m,
                _ => unreachable!(),
            },
            _ => unreachable!(),
        };
    }
    cur
}
fn strings(r: &RMsg, out: &mut Vec<String>) {
    for v in r.f.values() {
        match v {
            RVal::Str(s) => out.push(s.clone()),
            RVal::Msg(m) => strings(m, out),
            RVal::List(l) => l.iter().for_each(|v| match v {
                RVal::Msg(m) => strings(m, out),
                RVal::Str(s) => out.push(s.clone()),
                _ => {}
            }),
            _ => {}
        }
    }
}
fn odd_string(s: &mut Src, pool: &[String]) -> String {
    if !pool.is_empty() && s.chance(3, 5) {
        let mut t = s.pick(pool).clone();
        match s.below(8) {
            0 => t.insert(0, '.'),
            1 => t.push('.'),
            2 => {
                t = t.rsplit('.').next().unwrap().to_string();
            }
            3 => {
                let i = s.us(t.len() + 1);
                if t.is_char_boundary(i) {
                    t.truncate(i);
                }
            }
            4 => t = t.to_uppercase(),
            _ => {}
        }
        return t;
    }
    s.pick(&[
        "", ".", "..", "a.", ".a", "a..b", "\u{e9}", "0", "9x", "_", "__", "google.protobuf.Any", "google/protobuf/descriptor.proto", "google/protobuf/any.proto", "proto2",
        "proto3", "editions", "inf", "-nan", "-", "\\", "\\x", "\\xf\u{e9}", "\\400", "\\8", "\\u0041", "1e999", "-0", "99999999999999999999", "true", "key", "value", "a\0b", "\u{10ffff}",
        "AbcEntry", "[", "]", " ", "a b", "Timestamp", "google.protobuf",
    ])
    .to_string()
}
fn odd_int(s: &mut Src) -> i32 {
    match s.below(4) {
        0 => *s.pick(&[0, -1, 1, i32::MIN, i32::MAX, 18_999, 19_000, 19_999, 20_000, 536_870_911, 536_870_912, 1_000_000_000]),
        1 => s.below(20) as i32,
        2 => s.below(300) as i32,
        _ => s.i32v(),
    }
}
fn odd_value(s: &mut Src, m: &Model, f: &FieldDef, old: Option<&RVal>, pool: &[String]) -> RVal {
    match f.ty {
        Ty::String => RVal::Str(odd_string(s, pool)),
        Ty::Int32 => match old {
            Some(RVal::I32(x)) if s.flip() => RVal::I32(x.wrapping_add(*s.pick(&[1, -1, 2, 100]))),
            _ => RVal::I32(odd_int(s)),
        },
        Ty::Enum(e) => {
            if s.chance(1, 8) { RVal::Enum(odd_int(s)) } else { RVal::Enum(s.pick(&m.enums[e].values).1) }
        }
        Ty::Message(_) | Ty::Group(_) => {
            let mut c = VCfg { depth: 2, budget: 6, ..Default::default() };
            let mut v = gen_val(s, m, f.ty, 2, &mut c);
            if let RVal::Msg(r) = &mut v {
                rename(s, m, r, pool);
            }
            v
        }
        _ => {
            let c = VCfg::default();
            gen_scalar(s, m, f.ty, &c)
        }
    }
}
/// Strings that mean something in place of random ones.
fn rename(s: &mut Src, m: &Model, r: &mut RMsg, pool: &[String]) {
    for v in r.f.values_mut() {
        match v {
            RVal::Str(t) => *t = odd_string(s, pool),
            RVal::I32(t) => *t = odd_int(s),
            RVal::Msg(r) => rename(s, m, r, pool),
            RVal::List(l) => l.iter_mut().for_each(|v| match v {
                RVal::Str(t) => *t = odd_string(s, pool),
                RVal::I32(t) => *t = odd_int(s),
                RVal::Msg(r) => rename(s, m, r, pool),
                _ => {}
            }),
            _ => {}
        }
    }
}
/// All messages of a type, for grafting.
fn same_type(r: &RMsg, mid: usize, out: &mut Vec<RMsg>) {
    if r.mid == mid {
        out.push(r.clone());
    }
    for v in r.f.values() {
        match v {
            RVal::Msg(m) => same_type(m, mid, out),
            RVal::List(l) => l.iter().for_each(|v| {
                if let RVal::Msg(m) = v {
                    same_type(m, mid, out)
                }
            }),
            _ => {}
        }
    }
}
fn mutate(s: &mut Src, m: &Model, r: &mut RMsg) -> String {
    let pool = {
        let mut v = vec![];
        strings(r, &mut v);
        // references are written in full
        v.sort();
        v.dedup();
        v
    };
    let n = nodes(r);
    let (mut want, mut out) = (s.us(n), None);
    walk(r, &mut vec![], &mut want, &mut out);
    let path = out.unwrap();
    let whole = r.clone();
    let node = node_mut(r, &path);
    let mid = node.mid;
    let md = &m.msgs[mid];
    let have: Vec<u32> = node.f.keys().copied().collect();
    let what = s.below(11);
    if md.full_name == "google.protobuf.FieldDescriptorProto" && s.chance(1, 4) {
        // a default value
        let t = *s.pick(&[1, 2, 3, 5, 8, 9, 12, 12, 12, 13, 17]);
        node.f.insert(5, RVal::Enum(t));
        node.f.remove(&6);
        node.f.insert(4, RVal::Enum(1));
        let v = match s.below(3) {
            0 => odd_string(s, &[]),
            _ => (0..1 + s.below(4)).map(|_| *s.pick(&["\\", "\\x", "\\0", "\\4", "\\7", "7", "x", "f", "F", "\u{e9}", "u", "U", "a", "\"", "'", "\\n", "\\?", "8", "-", ".", "e", "1", "inf", "nan", " "])).collect(),
        };
        node.f.insert(7, RVal::Str(v));
        return "default".into();
    }
    match what {
        0 if !have.is_empty() => {
            node.f.remove(s.pick(&have));
        }
        1 | 2 | 3 if !have.is_empty() => {
            // another value for a field
            let n = *s.pick(&have);
            let FRef::F(f) = m.field(mid, n).unwrap() else { return String::new() };
            let old = node.f[&n].clone();
            match node.f.get_mut(&n).unwrap() {
                RVal::List(l) => {
                    let i = s.us(l.len());
                    match s.below(6) {
                        0 => {
                            l.remove(i);
                        }
                        1 => {
                            let x = l[i].clone();
                            l.push(x);
                        }
                        2 => s.shuffle(l),
                        3 => {
                            let x = odd_value(s, m, f, None, &pool);
                            l.push(x);
                        }
                        _ => l[i] = odd_value(s, m, f, Some(&old), &pool),
                    }
                    if l.is_empty() {
                        node.f.remove(&n);
                    }
                }
                v => *v = odd_value(s, m, f, Some(&old), &pool),
            }
        }
        4 | 5 => {
            // a value for any field
            let f = s.pick(&md.fields).clone();
            let v = odd_value(s, m, &f, node.f.get(&f.number), &pool);
            match node.f.get_mut(&f.number) {
                Some(RVal::List(l)) => l.push(v),
                _ => {
                    node.f.insert(f.number, if f.card == Card::Repeated { RVal::List(vec![v]) } else { v });
                }
            }
        }
        6 => {
            // the definition of another one
            let mut c = vec![];
            same_type(&whole, mid, &mut c);
            let x = s.pick(&c).clone();
            let keep = node.f.get(&1).cloned();
            *node = x;
            if let (Some(k), true) = (keep, s.flip()) {
                node.f.insert(1, k);
            }
        }
        7 => {
            // one more of a list, from elsewhere
            let ls: Vec<&FieldDef> = md.fields.iter().filter(|f| f.card == Card::Repeated && f.ty.msg().is_some()).collect();
            if ls.is_empty() {
                return String::new();
            }
            let f = *s.pick(&ls);
            let mut c = vec![];
            same_type(&whole, f.ty.msg().unwrap(), &mut c);
            if c.is_empty() {
                return String::new();
            }
            let x = RVal::Msg(s.pick(&c).clone());
            match node.f.get_mut(&f.number) {
                Some(RVal::List(l)) => l.push(x),
                _ => {
                    node.f.insert(f.number, RVal::List(vec![x]));
                }
            }
        }
        _ => {
            // a field of a definition points elsewhere
            let names: Vec<u32> = [6u32, 2, 3, 9, 7, 5, 4].into_iter().filter(|n| node.f.contains_key(n) && matches!(m.field(mid, *n), Some(f) if f.def().card != Card::Repeated)).collect();
            if names.is_empty() {
                return String::new();
            }
            let n = *s.pick(&names);
            let FRef::F(f) = m.field(mid, n).unwrap() else { return String::new() };
            let v = odd_value(s, m, f, node.f.get(&n), &pool);
            node.f.insert(n, v);
        }
    }
    format!("{what} at {path:?} ({})", md.full_name)
}

// ---- use of whatever was accepted -----------------------------------------------------------------

fn gen_kind(s: &mut Src, k: &Kind, depth: u32, budget: &mut i32) -> Value {
    *budget -= 1;
    match k {
        Kind::Double => Value::F64(s.f64v()),
        Kind::Float => Value::F32(s.f32v()),
        Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => Value::I32(s.i32v()),
        Kind::Int64 | Kind::Sint64 | Kind::Sfixed64 => Value::I64(s.i64v()),
        Kind::Uint32 | Kind::Fixed32 => Value::U32(s.u32v()),
        Kind::Uint64 | Kind::Fixed64 => Value::U64(s.u64v()),
        Kind::Bool => Value::Bool(s.flip()),
        Kind::String => Value::String(s.string()),
        Kind::Bytes => Value::Bytes(s.bytes().into()),
        Kind::Enum(e) => Value::EnumNumber(if s.flip() { e.default_value().number() } else { s.i32v() }),
        Kind::Message(m) => Value::Message(gen_dyn(s, m, depth, budget)),
    }
}
fn gen_like(s: &mut Src, k: &Kind, list: bool, map: bool, depth: u32, budget: &mut i32) -> Value {
    if map {
        let Kind::Message(e) = k else { panic!("a map of {k:?}") };
        let (kf, vf) = (e.map_entry_key_field(), e.map_entry_value_field());
        let mut out = HashMap::new();
        for _ in 0..1 + s.below(3) {
            let kk = gen_kind(s, &kf.kind(), 0, budget).into_map_key().expect("a map key");
            out.insert(kk, gen_kind(s, &vf.kind(), depth, budget));
        }
        Value::Map(out)
    } else if list {
        Value::List((0..1 + s.below(3)).map(|_| gen_kind(s, k, depth, budget)).collect())
    } else {
        gen_kind(s, k, depth, budget)
    }
}
fn gen_dyn(s: &mut Src, d: &MessageDescriptor, depth: u32, budget: &mut i32) -> DynamicMessage {
    let mut m = DynamicMessage::new(d.clone());
    for f in d.fields() {
        if *budget <= 0 || (depth == 0 && matches!(f.kind(), Kind::Message(_))) || !s.flip() {
            continue;
        }
        let v = if s.chance(1, 6) { Value::default_value_for_field(&f) } else { gen_like(s, &f.kind(), f.is_list(), f.is_map(), depth.saturating_sub(1), budget) };
        m.set_field(&f, v);
    }
    for x in d.extensions() {
        if *budget <= 0 || (depth == 0 && matches!(x.kind(), Kind::Message(_))) || !s.flip() {
            continue;
        }
        let v = if s.chance(1, 6) { Value::default_value_for_extension(&x) } else { gen_like(s, &x.kind(), x.is_list(), x.is_map(), depth.saturating_sub(1), budget) };
        m.set_extension(&x, v);
    }
    m
}
/// The descriptors of the pool with options: name, index of the file, and the call.
#[allow(clippy::type_complexity)]
fn all_options(p: &DescriptorPool) -> Vec<(String, String, Box<dyn Fn() -> DynamicMessage>)> {
    let mut v: Vec<(String, String, Box<dyn Fn() -> DynamicMessage>)> = vec![];
    for f in p.files() {
        v.push((f.name().to_string(), f.name().to_string(), Box::new(move || f.options())));
    }
    for m in p.all_messages() {
        let file = m.parent_file().name().to_string();
        for f in m.fields() {
            v.push((f.full_name().to_string(), file.clone(), Box::new(move || f.options())));
        }
        for f in m.oneofs() {
            v.push((f.full_name().to_string(), file.clone(), Box::new(move || f.options())));
        }
        v.push((m.full_name().to_string(), file, Box::new(move || m.options())));
    }
    for e in p.all_enums() {
        let file = e.parent_file().name().to_string();
        for f in e.values() {
            v.push((f.full_name().to_string(), file.clone(), Box::new(move || f.options())));
        }
        v.push((e.full_name().to_string(), file, Box::new(move || e.options())));
    }
    for e in p.all_extensions() {
        v.push((e.full_name().to_string(), e.parent_file().name().to_string(), Box::new(move || e.options())));
    }
    for e in p.services() {
        let file = e.parent_file().name().to_string();
        for f in e.methods() {
            v.push((f.full_name().to_string(), file.clone(), Box::new(move || f.options())));
        }
        v.push((e.full_name().to_string(), file, Box::new(move || e.options())));
    }
    v
}
/// Options of all descriptors; those of files added earlier may have been made undecodable by later ones (a known
/// finding).
fn use_options(p: &DescriptorPool, new: &[String], stale: &mut Option<Fail>) -> R {
    for (name, file, get) in all_options(p) {
        if let Err(f) = no_panic(&format!("the options of {name} in {file:?}"), || get().encode_to_vec()) {
            if new.contains(&file) || !f.msg.contains("DecodeError") {
                return fail("panic: options", f.msg);
            }
            *stale = Some(Fail { sig: "stale-options".into(), msg: f.msg });
        }
    }
    Ok(())
}

fn use_message(s: &mut Src, d: &MessageDescriptor) -> R {
    let name = d.full_name().to_string();
    let at = |what: &str| format!("{what} with {name}");
    let mut budget = 25;
    let depth = s.below(4) as u32;
    let m = no_panic(&at("building a message"), || gen_dyn(s, d, depth, &mut budget)).map_err(|f| Fail { sig: "panic: build".into(), msg: f.msg })?;
    let sig = |what: &str| {
        let what = what.to_string();
        move |f: Fail| Fail { sig: format!("panic: {what}"), msg: f.msg }
    };
    let bytes = no_panic(&at("encoding"), || m.encode_to_vec()).map_err(sig("encode"))?;
    let back = no_panic(&at("decoding"), || DynamicMessage::decode(d.clone(), &bytes[..])).map_err(sig("decode"))?;
    match back {
        Err(e) => return fail("decode", format!("{name}: decoding what was encoded: {e}; {}", desc::hex(&bytes))),
        Ok(b) => {
            no_panic(&at("comparing"), || b == m).map_err(sig("eq"))?;
            no_panic(&at("len"), || assert_eq!(b.encoded_len(), b.encode_to_vec().len())).map_err(sig("len"))?;
        }
    }
    no_panic(&at("formatting"), || format!("{m:?} {m:#?}")).map_err(sig("debug"))?;
    // JSON
    let opts = SerializeOptions::new()
        .stringify_64_bit_integers(s.flip())
        .use_enum_numbers(s.flip())
        .use_proto_field_name(s.flip())
        .skip_default_fields(s.flip());
    let j = no_panic(&at("writing JSON"), || {
        let mut o = vec![];
        let mut ser = serde_json::Serializer::new(&mut o);
        m.serialize_with_options(&mut ser, &opts).map(|_| o)
    })
    .map_err(sig("to json"))?;
    if let Ok(j) = j {
        no_panic(&at("reading JSON"), || {
            let mut de = serde_json::Deserializer::from_slice(&j);
            let _ = DynamicMessage::deserialize(d.clone(), &mut de);
        })
        .map_err(sig("from json"))?;
    }
    // text
    let f = text_format::FormatOptions::new().pretty(s.flip()).expand_any(s.flip()).skip_default_fields(s.flip()).skip_unknown_fields(s.flip());
    let t = no_panic(&at("writing text"), || m.to_text_format_with_options(&f)).map_err(sig("to text"))?;
    no_panic(&at("reading text"), || DynamicMessage::parse_text_format(d.clone(), &t).map_err(|e| e.to_string())).map_err(sig("from text"))?.ok();
    // input of any kind
    let mut raw = s.bytes();
    for f in d.fields().take(6) {
        let wt = *s.pick(&[0u64, 1, 2, 3, 5]);
        put_varint(&mut raw, (f.number() as u64) << 3 | wt);
        match wt {
            0 => put_varint(&mut raw, s.u64v()),
            1 => raw.extend([1; 8]),
            2 => {
                let b = s.bytes();
                put_varint(&mut raw, b.len() as u64);
                raw.extend(b);
            }
            3 => put_varint(&mut raw, (f.number() as u64) << 3 | 4),
            _ => raw.extend([1; 4]),
        }
    }
    if let Ok(x) = no_panic(&at("decoding noise"), || DynamicMessage::decode(d.clone(), s.split(&raw))).map_err(sig("decode noise"))? {
        no_panic(&at("encoding noise"), || x.encode_to_vec()).map_err(sig("encode noise"))?;
        no_panic(&at("text of noise"), || x.to_text_format()).map_err(sig("text of noise"))?;
        no_panic(&at("JSON of noise"), || serde_json::to_string(&x).ok()).map_err(sig("json of noise"))?;
    }
    let mut js = serde_json::Map::new();
    for f in d.fields().take(4) {
        let v: serde_json::Value = s
            .pick(&["null", "1", "-1", "\"1\"", "\"a\"", "true", "[]", "{}", "[null]", "[1, 2]", "{\"a\": 1}", "{\"1\": null}", "1.5", "\"NaN\"", "{\"@type\": \"x/google.protobuf.Any\"}", "\"1972-01-01T10:00:20Z\""])
            .parse()
            .unwrap();
        js.insert(f.json_name().to_string(), v);
    }
    let js = if s.chance(1, 4) { s.pick(&["null", "1", "\"a\"", "[]", "{\"@type\": \"x\"}", "\"1.5s\"", "true"]).parse().unwrap() } else { serde_json::Value::Object(js) };
    no_panic(&at("reading other JSON"), || DynamicMessage::deserialize(d.clone(), &js).map(|x| x.encode_to_vec()).map_err(|e| e.to_string()).ok()).map_err(sig("other json"))?;
    let mut tx = String::new();
    for f in d.fields().take(4) {
        tx += &format!("{}{} ", f.name(), s.pick(&[": 1", ": -1", ": 'a'", ": true", " {}", ": []", ": {key: 1}", " { value: 'a' }", ": 1.5", ": FOO", ": [{}, {}]"]));
    }
    no_panic(&at("reading other text"), || DynamicMessage::parse_text_format(d.clone(), &tx).map(|x| x.encode_to_vec()).map_err(|e| e.to_string()).ok()).map_err(sig("other text"))?;
    // the reflection API
    no_panic(&at("access"), || {
        let mut m = m.clone();
        for f in d.fields() {
            let _ = (m.has_field(&f), m.get_field(&f).into_owned(), f.default_value(), f.containing_oneof().map(|o| o.fields().count()));
            if s.flip() {
                m.get_field_mut(&f);
            }
            let _ = m.fields().count();
            if s.flip() {
                m.take_field(&f);
            }
            m.clear_field(&f);
        }
        for x in d.extensions() {
            let _ = (m.has_extension(&x), m.get_extension(&x).into_owned(), x.default_value());
            m.get_extension_mut(&x);
            let _ = m.extensions().count();
            m.clear_extension(&x);
        }
        m.encode_to_vec()
    })
    .map_err(sig("access"))?;
    no_panic(&at("transcoding"), || {
        let _ = m.transcode_to::<prost_types::Timestamp>();
        let _ = m.transcode_to::<prost_types::Any>();
        let _ = m.transcode_to::<FileDescriptorProto>();
    })
    .map_err(sig("transcode"))
}

/// Histories of the known findings.
fn c23_known(c: &mut Ctx) -> R {
    let mut pool = DescriptorPool::new();
    c.label("known findings");
    c.nontrivial = true;
    if c.s.flip() {
        // the options of a file hold field 50000, which a later file declares with another type
        let mut f = FileDescriptorProto { name: Some("a.proto".into()), ..Default::default() }.encode_to_vec();
        f.extend([0x42, 4, 0x80, 0xb5, 0x18, c.s.below(100) as u8]);
        let x = prost_types::FieldDescriptorProto {
            name: Some("x".into()),
            number: Some(50_000),
            label: Some(1),
            r#type: Some(9),
            extendee: Some(".google.protobuf.FileOptions".into()),
            ..Default::default()
        };
        let g = FileDescriptorProto { name: Some("b.proto".into()), dependency: vec!["google/protobuf/descriptor.proto".into()], extension: vec![x], ..Default::default() };
        c.digest(&f);
        let add = |pool: &mut DescriptorPool| -> Result<(), DescriptorError> {
            pool.add_file_descriptor_proto(desc_file())?;
            pool.decode_file_descriptor_proto(&f[..])?;
            pool.add_file_descriptor_proto(g.clone())
        };
        ensure!(add(&mut pool).is_ok(), "known: add", "cannot add the files");
        let mut known = None;
        use_options(&pool, &["b.proto".into()], &mut known)?;
        known.map_or(Ok(()), Err)
    } else {
        let m = prost_types::DescriptorProto { name: Some("M".into()), options: Some(prost_types::MessageOptions { map_entry: Some(true), ..Default::default() }), ..Default::default() };
        let f = FileDescriptorProto { name: Some("a.proto".into()), message_type: vec![m], ..Default::default() };
        c.digest(&f.encode_to_vec());
        if pool.add_file_descriptor_proto(f).is_err() {
            return Ok(());
        }
        let e = pool.get_message_by_name("M").unwrap();
        no_panic("map_entry_key_field", || e.map_entry_key_field()).map(|_| ()).map_err(|f| Fail { sig: "unused-map-entry".into(), msg: f.msg })
    }
}

/// descriptor.proto with other definitions of the options, and a file which sets options by name.
fn own_options(s: &mut Src) -> Vec<FileDescriptorProto> {
    use prost_types::*;
    let mut d = desc_file();
    let mut hot: Vec<(usize, String)> = vec![];
    for _ in 0..1 + s.weighted(&[8, 2, 1]) {
        let ms: Vec<usize> = (0..d.message_type.len()).filter(|i| d.message_type[*i].name().ends_with("Options")).collect();
        let i = *s.pick(&ms);
        let m = &mut d.message_type[i];
        if m.field.is_empty() {
            continue;
        }
        let k = s.us(m.field.len());
        let f = &mut m.field[k];
        if f.name() != "uninterpreted_option" {
            hot.push((i, f.name().to_string()));
        }
        match s.weighted(&[1, 1, 1, 1, 1, 1, 1, 6]) {
            0 => f.label = Some(if f.label == Some(3) { 1 } else { 3 }),
            1 => f.number = Some(odd_int(s)),
            2 => f.number = Some(999),
            3 => f.name = Some("zz".into()),
            4 => {
                m.field.remove(k);
            }
            5 => m.name = Some("Other".into()),
            6 => {
                f.r#type = Some(11);
                f.type_name = Some(s.pick(&[".google.protobuf.FileOptions", ".google.protobuf.UninterpretedOption", ".google.protobuf.UninterpretedOption.NamePart"]).to_string());
            }
            _ => {
                f.r#type = Some(*s.pick(&[1, 2, 3, 5, 8, 9, 12, 13, 17, 18, 6]));
                f.type_name = None;
            }
        }
        f_default(m);
    }
    fn f_default(m: &mut DescriptorProto) {
        for f in &mut m.field {
            if f.r#type() != field_descriptor_proto::Type::Enum && f.r#type() != field_descriptor_proto::Type::Bool {
                f.default_value = None;
            }
            if f.label == Some(3) {
                f.default_value = None;
            }
        }
    }
    let names = |s: &mut Src, t: &str| -> Vec<(String, i32)> {
        let m = d.message_type.iter().find(|m| m.name() == t);
        let mut v: Vec<(String, i32)> = m.map(|m| m.field.iter().map(|f| (f.name().to_string(), f.r#type.unwrap_or(0))).collect()).unwrap_or_default();
        if s.chance(1, 4) {
            v.push(("deprecated".into(), 8));
        }
        v.retain(|(n, t)| *t != 11 && n != "uninterpreted_option" || s.chance(1, 10));
        v
    };
    let un = |s: &mut Src, t: &str| -> Vec<UninterpretedOption> {
        let names = names(s, t);
        if names.is_empty() {
            return vec![];
        }
        (0..if s.chance(5, 6) && !hot.iter().any(|(i, _)| d.message_type[*i].name() == t) { 0 } else { 1 + s.below(2) })
            .map(|_| {
                let (mut n, mut ty) = s.pick(&names).clone();
                let used: Vec<&(usize, String)> = hot.iter().filter(|(i, _)| d.message_type[*i].name() == t).collect();
                if !used.is_empty() && s.chance(2, 3) {
                    n = s.pick(&used).1.clone();
                    ty = names.iter().find(|x| x.0 == n).map_or(0, |x| x.1);
                }
                let mut o = UninterpretedOption { name: vec![uninterpreted_option::NamePart { name_part: n.clone(), is_extension: s.chance(1, 40) }], ..Default::default() };
                if s.chance(1, 30) {
                    o.name.push(uninterpreted_option::NamePart { name_part: "x".into(), is_extension: s.flip() });
                }
                let odd = s.chance(1, 12);
                let k = if odd { s.below(7) } else { match ty { 8 | 14 => 0, 9 | 12 => 4, 1 | 2 => 3, 11 => 5, 4 | 13 | 6 | 7 => 1, 0 => s.below(7), _ => 1 + s.below(2) } };
                match k {
                    0 => o.identifier_value = Some(match (odd, ty, &n[..]) {
                        (false, 8, _) => s.pick(&["true", "false"]).to_string(),
                        (false, _, "optimize_for") => "SPEED".into(),
                        (false, _, "ctype") => "CORD".into(),
                        (false, _, "jstype") => "JS_STRING".into(),
                        (false, _, "idempotency_level") => "IDEMPOTENT".into(),
                        _ => s.pick(&["true", "false", "SPEED", "STRING", "OPEN", "inf", "x"]).to_string(),
                    }),
                    1 => o.positive_int_value = Some(if s.flip() { s.below(4) } else { s.u64v() }),
                    2 => o.negative_int_value = Some(-(s.below(1000) as i64)),
                    3 => o.double_value = Some(s.f64v()),
                    4 => o.string_value = Some(s.bytes()),
                    5 => o.aggregate_value = Some(s.pick(&["", "name_part: 'a' is_extension: true", "string_value: 'x'", "deprecated: true", "java_package: 'x' go_package: 'y'"]).to_string()),
                    _ => {}
                }
                o
            })
            .collect()
    };
    let field = FieldDescriptorProto {
        name: Some("f".into()),
        number: Some(1),
        label: Some(1),
        r#type: Some(5),
        oneof_index: s.flip().then_some(0),
        options: Some(FieldOptions { uninterpreted_option: un(s, "FieldOptions"), ..Default::default() }),
        ..Default::default()
    };
    let m = DescriptorProto {
        name: Some("M".into()),
        field: vec![field],
        oneof_decl: vec![OneofDescriptorProto { name: Some("o".into()), options: Some(OneofOptions { uninterpreted_option: un(s, "OneofOptions") }) }],
        extension_range: vec![descriptor_proto::ExtensionRange { start: Some(10), end: Some(20), options: Some(ExtensionRangeOptions { uninterpreted_option: un(s, "ExtensionRangeOptions"), ..Default::default() }) }],
        options: Some(MessageOptions { uninterpreted_option: un(s, "MessageOptions"), ..Default::default() }),
        ..Default::default()
    };
    let e = EnumDescriptorProto {
        name: Some("E".into()),
        value: vec![EnumValueDescriptorProto { name: Some("A".into()), number: Some(0), options: Some(EnumValueOptions { uninterpreted_option: un(s, "EnumValueOptions"), ..Default::default() }) }],
        options: Some(EnumOptions { uninterpreted_option: un(s, "EnumOptions"), ..Default::default() }),
        ..Default::default()
    };
    let sv = ServiceDescriptorProto {
        name: Some("S".into()),
        method: vec![MethodDescriptorProto {
            name: Some("m".into()),
            input_type: Some(".M".into()),
            output_type: Some(".M".into()),
            options: Some(MethodOptions { uninterpreted_option: un(s, "MethodOptions"), ..Default::default() }),
            ..Default::default()
        }],
        options: Some(ServiceOptions { uninterpreted_option: un(s, "ServiceOptions"), ..Default::default() }),
    };
    let f = FileDescriptorProto {
        name: Some("user.proto".into()),
        dependency: if s.flip() { vec!["google/protobuf/descriptor.proto".into()] } else { vec![] },
        message_type: vec![m],
        enum_type: vec![e],
        service: vec![sv],
        options: Some(FileOptions { uninterpreted_option: un(s, "FileOptions"), ..Default::default() }),
        ..Default::default()
    };
    vec![d, f]
}

/// Deep nesting and long chains, as values (bytes cannot hold more than 100 levels).
fn c23_deep(c: &mut Ctx) -> R {
    use prost_types::{DescriptorProto, FieldDescriptorProto};
    c.label("deep");
    c.nontrivial = true;
    let most = if c.s.chance(1, 4) { 400 } else { 120 };
    let n = 1 + c.s.us(most);
    let kind = c.s.below(4);
    c.note(|| format!("kind {kind}, {n} levels"));
    c.digest(&[kind as u8, n as u8, (n >> 8) as u8]);
    let field = |name: &str, number: i32, ty: &str| FieldDescriptorProto { name: Some(name.into()), number: Some(number), label: Some(1), type_name: Some(ty.into()), ..Default::default() };
    let mut files = vec![];
    match kind {
        0 => {
            // nested messages, each with a field of an outer or the inner one
            let mut m = DescriptorProto { name: Some("N".into()), ..Default::default() };
            for i in 0..n {
                m = DescriptorProto { name: Some(format!("M{i}")), field: vec![field("inner", 1, m.name()), field("own", 2, &format!("M{i}"))], nested_type: vec![m], ..Default::default() };
            }
            files.push(FileDescriptorProto { name: Some("a.proto".into()), message_type: vec![m], ..Default::default() });
        }
        1 | 2 => {
            // a chain of files
            for i in 0..n {
                let mut m = DescriptorProto { name: Some(format!("M{i}")), field: vec![field("own", 2, &format!("M{i}"))], ..Default::default() };
                let mut f = FileDescriptorProto { name: Some(format!("f{i}.proto")), package: Some(format!("p{}", i % 3)), ..Default::default() };
                if i > 0 {
                    f.dependency = vec![format!("f{}.proto", i - 1)];
                    if kind == 2 {
                        f.public_dependency = vec![0];
                        m.field.push(field("first", 3, ".p0.M0"));
                    }
                    m.field.push(field("prev", 1, &format!(".p{}.M{}", (i - 1) % 3, i - 1)));
                }
                f.message_type = vec![m];
                files.push(f);
            }
            if c.s.flip() {
                c.s.shuffle(&mut files);
            }
        }
        _ => {
            // packages of many parts
            let name = vec!["a"; n].join(".");
            let up = c.s.us(n + 1);
            let ty = if up == n { "M".to_string() } else { format!("{}.M", vec!["a"; n - up].join(".")) };
            let m = DescriptorProto { name: Some("M".into()), field: vec![field("own", 1, if c.s.flip() { "M" } else { &ty })], ..Default::default() };
            files.push(FileDescriptorProto { name: Some("a.proto".into()), package: Some(name), message_type: vec![m], ..Default::default() });
        }
    }
    let mut pool = DescriptorPool::new();
    let r = if c.s.flip() {
        no_panic("adding", || pool.add_file_descriptor_protos(files.clone()))
    } else {
        let b = FileDescriptorSet { file: files.clone() }.encode_to_vec();
        no_panic("decoding", || pool.decode_file_descriptor_set(&b[..]))
    }
    .map_err(|f| Fail { sig: "panic: deep".into(), msg: f.msg })?;
    match r {
        Err(e) => no_panic("the error", || format!("{e} {e:?}")).map(|_| ()),
        Ok(()) => {
            no_panic("reading the pool", || desc::dump(&pool, n < 60)).map_err(|f| Fail { sig: "panic: deep".into(), msg: f.msg })??;
            let msgs: Vec<MessageDescriptor> = pool.all_messages().collect();
            for _ in 0..3 {
                let d = c.s.pick(&msgs).clone();
                use_message(&mut c.s, &d)?;
            }
            let b = no_panic("encoding", || pool.encode_to_vec())?;
            no_panic("decoding", || DescriptorPool::decode(&b[..]).is_ok()).map(|_| ())
        }
    }
}

fn c23(c: &mut Ctx) -> R {
    if c.s.chance(1, 200) {
        return c23_known(c);
    }
    if c.s.chance(1, 500) {
        return c23_deep(c);
    }
    let om = desc_model();
    let cfg = Cfg { max_files: 1 + c.s.below(3), max_msgs: 1 + c.s.below(4), max_fields: 1 + c.s.below(6), services: true, wkt: c.s.chance(1, 6), ..Default::default() };
    let m = gen_model(&mut c.s, &cfg);
    let mut files = surface(&mut c.s, &m.fds().file);
    // of the well-known files, those in use
    if cfg.wkt {
        let user: Vec<String> = files.iter().map(|f| format!("{f:?}")).collect();
        let full: Vec<(String, String)> = m.msgs.iter().map(|x| (m.files[x.file].name.clone(), x.full_name.clone())).collect();
        let need: Vec<String> = m.files.iter().filter(|f| f.wkt).map(|f| f.name.clone()).filter(|n| full.iter().any(|(f, x)| f == n && user.iter().any(|u| u.contains(x)) )).collect();
        for f in &mut files {
            if f.public_dependency.is_empty() {
                f.dependency.retain(|d| !d.starts_with("google/") || need.contains(d));
            }
        }
    }
    if c.s.chance(1, 12) {
        files.insert(0, desc_file());
        c.label("with descriptor.proto");
    }
    let own = c.s.chance(1, 15);
    if own {
        files = own_options(&mut c.s);
        c.label("own options");
    }
    let mode = if own { 0 } else { c.s.weighted(&[8, 2, 1]) };
    let mut notes = vec![];
    let fds_mid = om.find_msg("google.protobuf.FileDescriptorSet").unwrap();
    let bytes = FileDescriptorSet { file: files.clone() }.encode_to_vec();
    let mut set = wire::dec(&om, fds_mid, &bytes).map_err(|e| Fail { sig: "harness".into(), msg: e })?;
    wire::normalize(&om, &mut set);
    let plain = wire::enc(&om, &set);
    match mode {
        0 | 1 => {
            for _ in 0..if own && c.s.chance(3, 4) { 0 } else { 1 + c.s.below(6) } {
                notes.push(mutate(&mut c.s, &om, &mut set));
            }
        }
        _ => {
            let mut v = VCfg { depth: 6, budget: 80, ..Default::default() };
            let mut pool = vec![];
            strings(&set, &mut pool);
            set = gen_msg(&mut c.s, &om, fds_mid, 6, &mut v);
            rename(&mut c.s, &om, &mut set, &pool);
            notes.push("random".into());
        }
    }
    let mut encoded: Vec<Vec<u8>> = match set.f.get(&1) {
        Some(RVal::List(l)) => l.iter().map(|v| wire::enc(&om, v.as_msg())).collect(),
        _ => vec![],
    };
    if mode == 1 {
        c.label("mutated bytes");
        for _ in 0..1 + c.s.below(4) {
            if encoded.is_empty() {
                break;
            }
            let i = c.s.us(encoded.len());
            let b = &mut encoded[i];
            if b.is_empty() {
                continue;
            }
            let k = c.s.us(b.len());
            match c.s.below(5) {
                0 => b[k] = c.s.below(256) as u8,
                1 => b[k] ^= 1 << c.s.below(8),
                2 => b.truncate(k),
                3 => {
                    b.remove(k);
                }
                _ => {
                    let x = c.s.below(256) as u8;
                    b.insert(k, x);
                }
            }
        }
    }
    c.note(|| format!("mutations {notes:?}\n{}", encoded.iter().map(|b| FileDescriptorProto::decode(&b[..]).map_or(desc::hex(b), |f| show(&[f]))).collect::<Vec<_>>().join("\n")));
    c.digest(&set_bytes(&encoded));
    c.nontrivial = own || set_bytes(&encoded) != plain;
    // in one or several steps, as bytes or structs
    let mut pool = if c.s.chance(1, 50) { DescriptorPool::global() } else { DescriptorPool::new() };
    let mut steps: Vec<Vec<Vec<u8>>> = vec![];
    for b in &encoded {
        match steps.last_mut() {
            Some(l) if c.s.chance(2, 3) => l.push(b.clone()),
            _ => steps.push(vec![b.clone()]),
        }
    }
    let mut accepted = 0;
    let mut known = None;
    for st in &steps {
        let structs: Option<Vec<FileDescriptorProto>> = st.iter().map(|b| FileDescriptorProto::decode(&b[..]).ok()).collect();
        let how = c.s.below(3);
        let before = pool.files().len();
        let r = match (&structs, st.len()) {
            (_, 1) if how == 0 => no_panic("decode_file_descriptor_proto", || pool.decode_file_descriptor_proto(c.s.split(&st[0]))),
            (Some(f), 1) if how == 1 => no_panic("add_file_descriptor_proto", || pool.add_file_descriptor_proto(f[0].clone())),
            (Some(f), _) if how < 2 => no_panic("add_file_descriptor_protos", || pool.add_file_descriptor_protos(f.clone())),
            _ => no_panic("decode_file_descriptor_set", || pool.decode_file_descriptor_set(c.s.split(set_bytes(st)))),
        }
        .map_err(|f| Fail { sig: "panic: add".into(), msg: f.msg })?;
        match r {
            Ok(()) => {
                accepted += 1;
                let new: Vec<String> = pool.files().skip(before).map(|f| f.name().to_string()).collect();
                use_options(&pool, &new, &mut known)?;
            }
            Err(e) => {
                no_panic("the error", || (e.to_string(), format!("{e:?} {e:#?}"), e.file().map(|x| x.to_string()), e.path().map(|x| x.to_vec()), e.line(), e.column(), format!("{:?}", e.with_source_code("a\nb"))))
                    .map_err(|f| Fail { sig: "panic: error".into(), msg: f.msg })?;
            }
        }
    }
    c.label(if accepted == steps.len() { "accepted" } else if accepted > 0 { "partly accepted" } else { "rejected" });
    // what is there must be usable
    if known.is_none() {
        let dump = no_panic("reading the pool", || desc::dump(&pool, true)).map_err(|f| Fail { sig: "panic: read".into(), msg: f.msg })?;
        if let Err(e) = dump {
            return fail(&format!("read: {}", e.sig), e.msg);
        }
    }
    let enc = no_panic("encoding the pool", || pool.encode_to_vec()).map_err(|f| Fail { sig: "panic: encode pool".into(), msg: f.msg })?;
    no_panic("decoding the pool", || DescriptorPool::decode(&enc[..]).map_err(|e| e.to_string())).map_err(|f| Fail { sig: "panic: decode pool".into(), msg: f.msg })?.ok();
    let msgs: Vec<MessageDescriptor> = pool.all_messages().filter(|m| !m.full_name().starts_with("google.protobuf.") || cfg.wkt).collect();
    let n = msgs.len().min(8);
    for i in 0..n {
        let d = if msgs.len() <= 8 { &msgs[i] } else { &msgs[c.s.us(msgs.len())] };
        use_message(&mut c.s, d)?;
    }
    // a map entry used by no map field may lack its fields (a known finding)
    for e in pool.all_messages().filter(|e| e.is_map_entry()) {
        let whole = e.get_field(1).is_some() && e.get_field(2).is_some();
        if let Err(f) = no_panic(&format!("the map entry {}", e.full_name()), || (e.map_entry_key_field(), e.map_entry_value_field())) {
            let used = pool.all_messages().any(|m| m.fields().any(|f| f.is_map() && f.kind().as_message() == Some(&e))) || pool.all_extensions().any(|f| f.is_map() && f.kind().as_message() == Some(&e));
            if whole || used {
                return fail("panic: map entry", f.msg);
            }
            known = Some(Fail { sig: "unused-map-entry".into(), msg: f.msg });
        }
    }
    known.map_or(Ok(()), Err)
}
