//! C26: the descriptors built into the library, against protobuf's own files.
//!
//! `std.bin` is the descriptor set protoc 3.21 makes of the files it comes with. The files built into the library are of
//! a later version, so everything here asks whether what is in the former is in the latter.

use super::jsonp::{cut, from_text, to_text};
use super::textp::content;
use super::wirep::classify;
use crate::engine::*;
use crate::ensure;
use crate::json::{doc, text as json_text, JOpts};
use crate::model::*;
use crate::text::*;
use crate::value::*;
use crate::wire;
use prost::Message;
use prost_reflect::{Cardinality, DescriptorPool, DynamicMessage, Kind, ReflectMessage, Syntax};
use prost_types::{DescriptorProto, FileDescriptorProto, FileDescriptorSet};
use std::sync::OnceLock;

pub const C26: Prop = Prop {
    id: "C26",
    run: c26,
    quick: 250_000,
    thorough: 4_000_000,
    rule: "case = either one definition of protobuf's own files (file, message, field, oneof, enum) looked up in the built-in descriptors by name, number and JSON name and compared attribute by attribute, or a message of one of their types with random contents, taken in random spellings through the built-in descriptor (binary, JSON, text) and through prost-types' own type for it; oracle = the descriptor set protoc makes of protobuf's files and the reference codecs over it; non-trivial = a definition with an attribute besides its name, or at least 2 populated values; distinct = hash of the definition or of type and value",
};

struct Std { fds: FileDescriptorSet, m: Model, items: Vec<Item> }
#[derive(Clone, Debug)]
enum Item {
    File(usize),
    Msg(usize),
    Field(usize, usize),
    Oneof(usize, usize),
    Enum(usize),
    /// the descriptor itself, as bytes, with everything it holds
    Raw(usize, Vec<usize>),
}
fn reference() -> &'static Std {
    static S: OnceLock<Std> = OnceLock::new();
    S.get_or_init(|| {
        let fds = FileDescriptorSet::decode(&include_bytes!("../../std.bin")[..]).unwrap();
        let mut m = Model::load_fds(&fds);
        for i in 0..m.files.len() {
            // (these are the types whose values have a form of their own)
            m.files[i].wkt = m.files[i].msgs.iter().any(|&x| crate::json::is_wkt(&m.msgs[x].full_name));
        }
        let mut items = vec![];
        for i in 0..m.files.len() {
            items.push(Item::File(i));
            items.push(Item::Raw(i, vec![]));
            fn nested(i: usize, d: &[DescriptorProto], path: &[usize], items: &mut Vec<Item>) {
                for (k, x) in d.iter().enumerate() {
                    let mut p = path.to_vec();
                    p.push(k);
                    items.push(Item::Raw(i, p.clone()));
                    nested(i, &x.nested_type, &p, items);
                }
            }
            nested(i, &fds.file[i].message_type, &[], &mut items);
        }
        for (i, x) in m.msgs.iter().enumerate() {
            items.push(Item::Msg(i));
            items.extend((0..x.fields.len()).map(|k| Item::Field(i, k)));
            items.extend((0..x.oneofs.len()).map(|k| Item::Oneof(i, k)));
        }
        items.extend((0..m.enums.len()).map(Item::Enum));
        Std { fds, m, items }
    })
}

fn c26(c: &mut Ctx) -> R {
    if c.s.chance(1, 3) {
        definition(c)
    } else {
        values(c)
    }
}

/// Whether what `want` says is said by `got`.
fn within(m: &Model, want: &RMsg, got: &RMsg, path: &str) -> Result<(), String> {
    let name = |r: &RVal| match r {
        RVal::Msg(x) => x.f.get(&1).and_then(|v| if let RVal::Str(s) = v { Some(s.clone()) } else { None }),
        _ => None,
    };
    for (n, v) in &want.f {
        let fr = m.field(want.mid, *n).unwrap();
        let at = format!("{path}.{}", fr.def().name);
        let Some(g) = got.f.get(n) else { return Err(format!("{at} is not set, expected {v:?}")) };
        match (v, g) {
            (RVal::Msg(a), RVal::Msg(b)) => within(m, a, b, &at)?,
            (RVal::List(a), RVal::List(b)) => {
                for x in a {
                    match (x, name(x)) {
                        (RVal::Msg(xm), Some(nm)) => match b.iter().find(|y| name(y).as_ref() == Some(&nm)) {
                            Some(RVal::Msg(y)) => within(m, xm, y, &format!("{at}[{nm}]"))?,
                            _ => return Err(format!("{at} has no {nm}")),
                        },
                        (RVal::Msg(xm), None) => {
                            if !b.iter().any(|y| matches!(y, RVal::Msg(y) if within(m, xm, y, "").is_ok())) {
                                return Err(format!("{at} lacks {x:?}"));
                            }
                        }
                        _ => {
                            if !b.contains(x) {
                                return Err(format!("{at} lacks {x:?}"));
                            }
                        }
                    }
                }
            }
            _ if v == g => {}
            _ => return Err(format!("{at}: expected {v:?}, got {g:?}")),
        }
    }
    Ok(())
}
fn find<'a>(d: &'a [DescriptorProto], n: &str) -> Option<&'a DescriptorProto> {
    d.iter().find(|x| x.name() == n)
}
fn raw(m: &Model, mid: &str, want: &[u8], got: &[u8], path: &str) -> Result<(), String> {
    let mid = m.find_msg(mid).unwrap();
    let w = wire::dec(m, mid, want).unwrap_or_else(|x| panic!("harness: {x}"));
    let g = wire::dec(m, mid, got).map_err(|x| format!("{path}: {x}"))?;
    within(m, &w, &g, path)
}

macro_rules! want {
    ($who:expr, $what:expr, $w:expr, $g:expr) => {{
        match ($w, $g) {
            (w, g) => ensure!(w == g, $what, "{}: {}: expected {:?}, got {:?}", $who, $what, w, g),
        }
    }};
}
macro_rules! there {
    ($who:expr, $what:expr, $x:expr) => {
        match $x {
            Some(x) => x,
            None => return fail($what, format!("{}: not found ({})", $who, $what)),
        }
    };
}

fn definition(c: &mut Ctx) -> R {
    let st = reference();
    let (m, fds) = (&st.m, &st.fds);
    let it = c.s.pick(&st.items).clone();
    c.digest(format!("{it:?}").as_bytes());
    c.label("definition");
    let pool = DescriptorPool::global();
    let pool = if c.s.flip() { DescriptorPool::decode(&pool.encode_to_vec()[..]).map_err(|x| Fail { sig: "pool".into(), msg: x.to_string() })? } else { pool };
    match it {
        Item::File(i) => {
            let w: &FileDescriptorProto = &fds.file[i];
            let who = w.name();
            c.note(|| format!("file {who}"));
            c.nontrivial = true;
            let f = there!(who, "file", pool.get_file_by_name(who));
            want!(who, "package", w.package(), f.package_name());
            want!(who, "syntax", w.syntax() == "proto3", f.syntax() == Syntax::Proto3);
            let deps: Vec<String> = f.dependencies().map(|x| x.name().to_string()).collect();
            for d in &w.dependency {
                ensure!(deps.contains(d), "deps", "{who} does not import {d}");
            }
            for x in &m.files[i].msgs {
                ensure!(f.messages().any(|y| y.full_name() == m.msgs[*x].full_name), "file-messages", "{who} lacks {}", m.msgs[*x].full_name);
            }
            for x in &m.files[i].enums {
                ensure!(f.enums().any(|y| y.full_name() == m.enums[*x].full_name), "file-enums", "{who} lacks {}", m.enums[*x].full_name);
            }
        }
        Item::Raw(i, path) => {
            let w = &fds.file[i];
            let f = there!(w.name(), "file", pool.get_file_by_name(w.name()));
            let (mut wd, mut gd): (&[DescriptorProto], &[DescriptorProto]) = (&w.message_type, &f.file_descriptor_proto().message_type);
            let mut found: Option<(&DescriptorProto, &DescriptorProto)> = None;
            for k in &path {
                let a = &wd[*k];
                let b = there!(a.name(), "raw-message", find(gd, a.name()));
                (wd, gd) = (&a.nested_type, &b.nested_type);
                found = Some((a, b));
            }
            c.nontrivial = true;
            match found {
                None => {
                    c.note(|| format!("descriptor of {}", w.name()));
                    raw(m, "google.protobuf.FileDescriptorProto", &w.encode_to_vec(), &f.file_descriptor_proto().encode_to_vec(), w.name()).or_else(|x| fail("raw", x))?;
                    // as the pool itself gives it
                    raw(m, "google.protobuf.FileDescriptorProto", &w.encode_to_vec(), &f.encode_to_vec(), w.name()).or_else(|x| fail("raw-file", x))?;
                }
                Some((a, b)) => {
                    c.note(|| format!("descriptor of {} in {}", a.name(), w.name()));
                    raw(m, "google.protobuf.DescriptorProto", &a.encode_to_vec(), &b.encode_to_vec(), a.name()).or_else(|x| fail("raw", x))?;
                }
            }
        }
        Item::Msg(i) => {
            let w = &m.msgs[i];
            let who = &w.full_name;
            c.note(|| format!("message {who}"));
            c.nontrivial = !w.fields.is_empty();
            let d = there!(who, "message", pool.get_message_by_name(who));
            want!(who, "name", w.name.as_str(), d.name());
            want!(who, "file", m.files[w.file].name.as_str(), d.parent_file().name());
            want!(who, "parent", w.parent.map(|p| m.msgs[p].full_name.clone()), d.parent_message().map(|p| p.full_name().to_string()));
            want!(who, "map_entry", w.map_entry, d.is_map_entry());
            for (a, b) in &w.ext_ranges {
                ensure!(d.extension_ranges().any(|r| r == (*a..*b)), "extension-range", "{who} lacks extensions {a} to {b}");
            }
            let raw = w.reserved.iter().all(|(a, b)| d.reserved_ranges().any(|r| r == (*a..*b)));
            ensure!(raw, "reserved", "{who} lacks a reserved range of {:?}", w.reserved);
            for f in &w.fields {
                ensure!(d.fields().any(|g| g.name() == f.name && g.number() == f.number), "fields", "{who} lacks {} = {}", f.name, f.number);
            }
            for n in &w.nested {
                ensure!(d.child_messages().any(|g| g.full_name() == m.msgs[*n].full_name), "child-messages", "{who} lacks {}", m.msgs[*n].full_name);
            }
            for n in &w.enums {
                ensure!(d.child_enums().any(|g| g.full_name() == m.enums[*n].full_name), "child-enums", "{who} lacks {}", m.enums[*n].full_name);
            }
        }
        Item::Field(i, k) => {
            let f = &m.msgs[i].fields[k];
            let who = format!("{}.{}", m.msgs[i].full_name, f.name);
            c.note(|| format!("field {who}"));
            c.nontrivial = true;
            let d = there!(who, "message", pool.get_message_by_name(&m.msgs[i].full_name));
            let g = there!(who, "field-by-name", d.get_field_by_name(&f.name));
            want!(who, "field-by-number", Some(&g), d.get_field(f.number).as_ref());
            want!(who, "field-by-json-name", Some(&g), d.get_field_by_json_name(&m.json_name(f)).as_ref());
            want!(who, "number", f.number, g.number());
            want!(who, "json_name", m.json_name(f), g.json_name().to_string());
            let card = match f.card {
                Card::Optional => Cardinality::Optional,
                Card::Required => Cardinality::Required,
                Card::Repeated => Cardinality::Repeated,
            };
            want!(who, "cardinality", card, g.cardinality());
            let ty = match g.kind() {
                Kind::Double => "double".to_string(),
                Kind::Float => "float".into(),
                Kind::Int32 => "int32".into(),
                Kind::Int64 => "int64".into(),
                Kind::Uint32 => "uint32".into(),
                Kind::Uint64 => "uint64".into(),
                Kind::Sint32 => "sint32".into(),
                Kind::Sint64 => "sint64".into(),
                Kind::Fixed32 => "fixed32".into(),
                Kind::Fixed64 => "fixed64".into(),
                Kind::Sfixed32 => "sfixed32".into(),
                Kind::Sfixed64 => "sfixed64".into(),
                Kind::Bool => "bool".into(),
                Kind::String => "string".into(),
                Kind::Bytes => "bytes".into(),
                Kind::Message(x) => x.full_name().to_string(),
                Kind::Enum(x) => x.full_name().to_string(),
            };
            let wty = match m.type_ref(f.ty) {
                Some(x) => x[1..].to_string(),
                None => format!("{:?}", f.ty).to_lowercase(),
            };
            want!(who, "type", wty, ty);
            want!(who, "group", matches!(f.ty, Ty::Group(_)), g.is_group());
            want!(who, "list", m.is_list(f), g.is_list());
            want!(who, "map", m.is_map(f), g.is_map());
            want!(who, "presence", m.has_presence(i, FRef::F(f)), g.supports_presence());
            want!(who, "packed", m.is_packed(i, FRef::F(f)), g.is_packed());
            want!(who, "oneof", f.oneof.map(|o| m.msgs[i].oneofs[o].name.clone()), g.containing_oneof().map(|o| o.name().to_string()));
            if f.card != Card::Repeated && f.ty.msg().is_none() {
                let e = Env { m, pool: pool.clone(), msgs: vec![], exts: vec![] };
                want!(who, "default", m.default_of(f), e.from_val(&g.default_value()));
                let b = DynamicMessage::new(d.clone());
                want!(who, "unset", m.default_of(f), e.from_val(&b.get_field_by_name(&f.name).unwrap()));
            }
        }
        Item::Oneof(i, k) => {
            let o = &m.msgs[i].oneofs[k];
            let who = format!("{}.{}", m.msgs[i].full_name, o.name);
            c.note(|| format!("oneof {who}"));
            c.nontrivial = true;
            let d = there!(who, "message", pool.get_message_by_name(&m.msgs[i].full_name));
            let g = there!(who, "oneof", d.oneofs().find(|x| x.name() == o.name));
            want!(who, "synthetic", o.synthetic, g.is_synthetic());
            for f in m.msgs[i].fields.iter().filter(|f| f.oneof == Some(k)) {
                ensure!(g.fields().any(|x| x.number() == f.number), "oneof-fields", "{who} lacks {}", f.name);
            }
        }
        Item::Enum(i) => {
            let e = &m.enums[i];
            let who = &e.full_name;
            c.note(|| format!("enum {who}"));
            c.nontrivial = true;
            let d = there!(who, "enum", pool.get_enum_by_name(who));
            want!(who, "name", e.name.as_str(), d.name());
            want!(who, "file", m.files[e.file].name.as_str(), d.parent_file().name());
            want!(who, "parent", e.parent.map(|p| m.msgs[p].full_name.clone()), d.parent_message().map(|p| p.full_name().to_string()));
            want!(who, "first", e.values[0].1, d.default_value().number());
            for (n, v) in &e.values {
                let x = there!(who, n, d.get_value_by_name(n));
                want!(who, "value", *v, x.number());
                want!(who, "value-name", Some(n.as_str()), d.get_value(*v).as_ref().map(|x| x.name()));
                ensure!(d.values().any(|x| x.name() == n && x.number() == *v), "values", "{who} lacks {n} = {v}");
            }
        }
    }
    Ok(())
}

/// Through prost-types' own type: (what it encodes to, as a dynamic message of its own, what that converts back to)
fn typed(name: &str, b: &[u8]) -> Option<Result<(Vec<u8>, DynamicMessage, Vec<u8>), String>> {
    fn via<T: Message + Default + ReflectMessage>(b: &[u8]) -> Result<(Vec<u8>, DynamicMessage, Vec<u8>), String> {
        let t = T::decode(b).map_err(|x| format!("prost: {x}"))?;
        let d = t.transcode_to_dynamic();
        let back: T = d.transcode_to().map_err(|x| format!("transcode_to: {x}"))?;
        Ok((t.encode_to_vec(), d, back.encode_to_vec()))
    }
    use prost_types as p;
    let n = name.strip_prefix("google.protobuf.")?;
    macro_rules! t {
        ($($n:literal: $t:ty,)*) => { match n { $($n => via::<$t>(b),)* _ => return None } };
    }
    Some(t! {
        "Any": p::Any, "Timestamp": p::Timestamp, "Duration": p::Duration, "Struct": p::Struct, "Value": p::Value,
        "ListValue": p::ListValue, "FieldMask": p::FieldMask, "Empty": (), "DoubleValue": f64, "FloatValue": f32,
        "Int64Value": i64, "UInt64Value": u64, "Int32Value": i32, "UInt32Value": u32, "BoolValue": bool,
        "StringValue": String, "BytesValue": Vec<u8>, "Api": p::Api, "Method": p::Method, "Mixin": p::Mixin,
        "Type": p::Type, "Field": p::Field, "Enum": p::Enum, "EnumValue": p::EnumValue, "Option": p::Option,
        "SourceContext": p::SourceContext, "compiler.CodeGeneratorRequest": p::compiler::CodeGeneratorRequest,
        "compiler.CodeGeneratorResponse": p::compiler::CodeGeneratorResponse,
        "compiler.CodeGeneratorResponse.File": p::compiler::code_generator_response::File, "compiler.Version": p::compiler::Version,
        "FileDescriptorSet": p::FileDescriptorSet, "FileDescriptorProto": p::FileDescriptorProto,
        "DescriptorProto": p::DescriptorProto, "DescriptorProto.ExtensionRange": p::descriptor_proto::ExtensionRange,
        "DescriptorProto.ReservedRange": p::descriptor_proto::ReservedRange, "ExtensionRangeOptions": p::ExtensionRangeOptions,
        "FieldDescriptorProto": p::FieldDescriptorProto, "OneofDescriptorProto": p::OneofDescriptorProto,
        "EnumDescriptorProto": p::EnumDescriptorProto,
        "EnumDescriptorProto.EnumReservedRange": p::enum_descriptor_proto::EnumReservedRange,
        "EnumValueDescriptorProto": p::EnumValueDescriptorProto, "ServiceDescriptorProto": p::ServiceDescriptorProto,
        "MethodDescriptorProto": p::MethodDescriptorProto, "FileOptions": p::FileOptions, "MessageOptions": p::MessageOptions,
        "FieldOptions": p::FieldOptions, "OneofOptions": p::OneofOptions, "EnumOptions": p::EnumOptions,
        "EnumValueOptions": p::EnumValueOptions, "ServiceOptions": p::ServiceOptions, "MethodOptions": p::MethodOptions,
        "UninterpretedOption": p::UninterpretedOption, "UninterpretedOption.NamePart": p::uninterpreted_option::NamePart,
        "SourceCodeInfo": p::SourceCodeInfo, "SourceCodeInfo.Location": p::source_code_info::Location,
        "GeneratedCodeInfo": p::GeneratedCodeInfo, "GeneratedCodeInfo.Annotation": p::generated_code_info::Annotation,
    })
}

fn values(c: &mut Ctx) -> R {
    let m = &reference().m;
    let mids: Vec<usize> = (0..m.msgs.len()).filter(|&i| !m.msgs[i].map_entry).collect();
    let mid = *c.s.pick(&mids);
    let name = m.msgs[mid].full_name.clone();
    let json = c.s.chance(3, 4);
    // (numbers without a name here may have one in the later version)
    let mut vc = VCfg { json_safe: json, budget: 25, unknown_enum: false, ..Default::default() };
    let v = gen_msg(&mut c.s, m, mid, 3, &mut vc);
    c.note(|| format!("message type: {name}\nvalue: {v:?}"));
    c.digest(format!("{name}{v:?}").as_bytes());
    classify(c, m, &v);
    c.nontrivial = weight(&v) >= 2;
    let e = Env::with_pool(m, DescriptorPool::global()).map_err(|x| Fail { sig: "message".into(), msg: x })?;
    let desc = e.msgs[mid].clone();
    let want = content(m, &v);
    let how = c.s.weighted(&[3, if json { 3 } else { 0 }, 3, 1, 3]);
    let b = wire::noisy(&mut c.s, m, &v, false);
    let d = no_panic("read", || -> Result<DynamicMessage, String> {
        match how {
            1 => {
                let x = doc(m, &v, &JOpts::spelled(), &mut c.s);
                let t = json_text(&x, &mut c.s, true);
                from_text(&desc, &t, true).map_err(|x| format!("{x}\njson: {}", cut(&t)))
            }
            2 => {
                let mut ts = vec![];
                flat(&sp_fields(m, &v, &mut c.s), &mut c.s, &mut ts);
                let t = join(&ts, &mut c.s).0;
                DynamicMessage::parse_text_format(desc.clone(), &t).map_err(|x| format!("{x}\ntext: {}", cut(&t)))
            }
            3 => Ok(e.to_dyn(&v)),
            _ => DynamicMessage::decode(desc.clone(), &b[..]).map_err(|x| x.to_string()),
        }
    })?;
    let sig = ["", "json-in", "text-in", "set", "binary-in"][how];
    c.label(if sig.is_empty() { "binary-in" } else { sig });
    let d = d.or_else(|x| fail(sig, format!("{name}: {x}")))?;
    let v = e.from_dyn(&d); // (bytes inside an Any may be other bytes of the same meaning)
    let got = content(m, &v);
    ensure!(got == want, sig, "{name}: {}", diff(m, &want, &got));
    // and out again
    match wire::dec(m, mid, &d.encode_to_vec()) {
        Ok(x) => ensure!(content(m, &x) == want, "binary-out", "{name}: {}", diff(m, &want, &content(m, &x))),
        Err(x) => return fail("binary-out", format!("{name}: {x}")),
    }
    if json {
        let o = JOpts { skip_default: true, ..JOpts::random(&mut c.s) };
        let t = no_panic("to json", || to_text(&d, &o, false))?.or_else(|x| fail("json-out", format!("{name}: {x}")))?;
        let g = crate::json::parse(&t).or_else(|x| fail("json-out", format!("{name}: {x}: {}", cut(&t))))?;
        let w = doc(m, &v, &o, &mut c.s);
        crate::json::same(m, &w, &g, "$").or_else(|x| fail("json-out", format!("{name}: {x}: {}", cut(&t))))?;
    }
    let o = TOpts { skip_default: true, ..TOpts::random(&mut c.s) };
    let t = no_panic("to text", || d.to_text_format_with_options(&o.lib()))?;
    let g = read(&t).or_else(|x| fail("text-out", format!("{name}: {x}: {}", cut(&t))))?;
    matches(m, &v, &o, &g, "").or_else(|x| fail("text-out", format!("{name}: {x}: {}", cut(&t))))?;
    // prost-types' own type for it
    if let Some(r) = no_panic("typed", || typed(&name, &b))? {
        c.label("typed");
        let (tb, td, back) = r.or_else(|x| fail("typed", format!("{name}: {x}")))?;
        ensure!(td.descriptor() == desc, "typed-descriptor", "{name}: descriptor() is {:?}", td.descriptor().full_name());
        let w = wire::dec(m, mid, &tb).unwrap_or_else(|x| panic!("harness: prost's encoding: {x}"));
        let g = e.from_dyn(&td);
        ensure!(content(m, &g) == content(m, &w), "typed-dynamic", "{name}: {}", diff(m, &w, &g));
        ensure!(!has_unknown(&g), "typed-unknown", "{name}: unknown fields in {g:?}");
        let x = wire::dec(m, mid, &back).or_else(|x| fail("typed-back", format!("{name}: {x}")))?;
        ensure!(content(m, &x) == content(m, &w), "typed-back", "{name}: {}", diff(m, &w, &x));
    }
    Ok(())
}
