//! C04: generated and dynamic messages.

use crate::engine::*;
use crate::ensure;
use crate::json::any_equal;
use crate::model::*;
use crate::value::*;
use crate::wire;
use prost::Message;
use prost_reflect::text_format::FormatOptions;
use prost_reflect::*;
use prost_types::FileDescriptorSet;
use std::fmt::Debug;
use std::sync::OnceLock;

pub const C04: Prop = Prop {
    id: "C04",
    run: c04,
    quick: 250_000,
    thorough: 3_000_000,
    rule: "case = a type generated by prost-build with the derive (hand-written and random schemas) or one of prost-types, and a value of it, decoded from bytes written by the harness; oracle = the harness's reading of the struct's encoding, and equality of the struct after each trip; non-trivial = at least 2 populated values; distinct = hash of type and value",
};

pub type Run = fn(&mut Ctx, &Env, usize) -> R;

/// The standard types, with descriptors as they were at the start of this work.
static STD: &[u8] = include_bytes!("../std.fds");

macro_rules! std_types {
    ($($t:ty => $n:expr;)*) => { static STD_TYPES: &[(&str, Run)] = &[$((concat!("google.protobuf.", $n), one::<$t>)),*]; };
}
use prost_types as pt;
std_types! {
    () => "Empty";
    bool => "BoolValue";
    f32 => "FloatValue";
    f64 => "DoubleValue";
    i32 => "Int32Value";
    i64 => "Int64Value";
    String => "StringValue";
    u32 => "UInt32Value";
    u64 => "UInt64Value";
    Vec<u8> => "BytesValue";
    prost::bytes::Bytes => "BytesValue";
    pt::Any => "Any";
    pt::Api => "Api";
    pt::compiler::CodeGeneratorRequest => "compiler.CodeGeneratorRequest";
    pt::compiler::CodeGeneratorResponse => "compiler.CodeGeneratorResponse";
    pt::compiler::code_generator_response::File => "compiler.CodeGeneratorResponse.File";
    pt::compiler::Version => "compiler.Version";
    pt::DescriptorProto => "DescriptorProto";
    pt::descriptor_proto::ExtensionRange => "DescriptorProto.ExtensionRange";
    pt::descriptor_proto::ReservedRange => "DescriptorProto.ReservedRange";
    pt::Duration => "Duration";
    pt::Enum => "Enum";
    pt::EnumDescriptorProto => "EnumDescriptorProto";
    pt::enum_descriptor_proto::EnumReservedRange => "EnumDescriptorProto.EnumReservedRange";
    pt::EnumOptions => "EnumOptions";
    pt::EnumValue => "EnumValue";
    pt::EnumValueDescriptorProto => "EnumValueDescriptorProto";
    pt::EnumValueOptions => "EnumValueOptions";
    pt::ExtensionRangeOptions => "ExtensionRangeOptions";
    pt::Field => "Field";
    pt::FieldDescriptorProto => "FieldDescriptorProto";
    pt::FieldMask => "FieldMask";
    pt::FieldOptions => "FieldOptions";
    pt::FileDescriptorProto => "FileDescriptorProto";
    pt::FileDescriptorSet => "FileDescriptorSet";
    pt::FileOptions => "FileOptions";
    pt::GeneratedCodeInfo => "GeneratedCodeInfo";
    pt::generated_code_info::Annotation => "GeneratedCodeInfo.Annotation";
    pt::ListValue => "ListValue";
    pt::MessageOptions => "MessageOptions";
    pt::Method => "Method";
    pt::MethodDescriptorProto => "MethodDescriptorProto";
    pt::MethodOptions => "MethodOptions";
    pt::Mixin => "Mixin";
    pt::OneofDescriptorProto => "OneofDescriptorProto";
    pt::OneofOptions => "OneofOptions";
    pt::Option => "Option";
    pt::ServiceDescriptorProto => "ServiceDescriptorProto";
    pt::ServiceOptions => "ServiceOptions";
    pt::SourceCodeInfo => "SourceCodeInfo";
    pt::source_code_info::Location => "SourceCodeInfo.Location";
    pt::SourceContext => "SourceContext";
    pt::Struct => "Struct";
    pt::Timestamp => "Timestamp";
    pt::Type => "Type";
    pt::UninterpretedOption => "UninterpretedOption";
    pt::uninterpreted_option::NamePart => "UninterpretedOption.NamePart";
    pt::Value => "Value";
    // forwarded
    Box<pt::Timestamp> => "Timestamp";
    Box<pt::Value> => "Value";
}

/// The models of the schemas: hand-written, generated, standard.
fn models() -> &'static [(Model, DescriptorPool)] {
    static M: OnceLock<Vec<(Model, DescriptorPool)>> = OnceLock::new();
    M.get_or_init(|| {
        let load = |b: &[u8]| Model::load_fds(&FileDescriptorSet::decode(b).expect("harness: descriptors"));
        let mut v = vec![];
        let hand = crate::hand::typed::p3::Scalars::default().descriptor().parent_pool().clone();
        v.push((load(crate::HAND), hand));
        for (i, b) in crate::GENERATED.iter().enumerate() {
            v.push((load(b), crate::pool(i)));
        }
        v.push((load(STD), DescriptorPool::global()));
        v
    })
}

/// The library fills in the names.
fn json_names(d: &mut pt::DescriptorProto) {
    for f in d.field.iter_mut().chain(&mut d.extension) {
        if f.json_name.is_none() {
            f.json_name = Some(json_camel(f.name()));
        }
    }
    d.nested_type.iter_mut().for_each(json_names);
}
/// The definition of a message in the file sets.
fn definition(file: &str, m: &Model, mid: usize) -> Option<pt::DescriptorProto> {
    static F: OnceLock<Vec<FileDescriptorSet>> = OnceLock::new();
    let sets = F.get_or_init(|| {
        let mut v = vec![FileDescriptorSet::decode(STD).unwrap(), FileDescriptorSet::decode(crate::HAND).unwrap()];
        v.extend(crate::GENERATED.iter().map(|b| FileDescriptorSet::decode(*b).unwrap()));
        v
    });
    let mut path = vec![];
    let mut at = Some(mid);
    while let Some(i) = at {
        path.push(&m.msgs[i].name);
        at = m.msgs[i].parent;
    }
    let i = if file.starts_with("google/protobuf/") { 0 } else { models().iter().position(|x| std::ptr::eq(&x.0, m)).unwrap() + 1 };
    let mut list = &sets[i].file.iter().find(|f| f.name() == file)?.message_type;
    loop {
        let name = path.pop()?;
        let d = list.iter().find(|d| d.name() == name)?;
        if path.is_empty() {
            let mut d = d.clone();
            json_names(&mut d);
            return Some(d);
        }
        list = &d.nested_type;
    }
}

/// Derived by hand, with the attributes in other orders.
#[derive(Clone, PartialEq, prost::Message, ReflectMessage)]
#[prost_reflect(descriptor_pool = "models()[0].1.clone()", message_name = "typed.p2.Leaf")]
struct Leaf1 {
    #[prost(int32, optional, tag = "1")]
    x: Option<i32>,
    #[prost(string, required, tag = "2")]
    y: String,
}
#[derive(Clone, PartialEq, ReflectMessage, prost::Message)]
#[prost_reflect(file_descriptor_set_bytes = "crate::HAND")]
#[prost_reflect(message_name = "typed.p2.Leaf")]
struct Leaf2 {
    #[prost(string, required, tag = "2")]
    y: String,
    #[prost(int32, optional, tag = "1")]
    x: Option<i32>,
}
#[derive(Clone, PartialEq, prost::Message, ReflectMessage)]
#[prost_reflect(message_name = "NoPackage.Sub", file_descriptor_set_bytes = "crate::HAND")]
struct Sub3 {
    #[prost(uint64, repeated, packed = "false", tag = "1")]
    n: Vec<u64>,
    #[prost(oneof = "O3", tags = "2, 3")]
    o: Option<O3>,
}
#[derive(Clone, PartialEq, prost::Oneof)]
enum O3 {
    #[prost(message, tag = "2")]
    P(crate::hand::NoPackage),
    #[prost(float, tag = "3")]
    F(f32),
}
static DERIVED: &[(&str, Run)] = &[("typed.p2.Leaf", one::<Leaf1>), ("typed.p2.Leaf", one::<Leaf2>), ("NoPackage.Sub", one::<Sub3>)];

fn has_nan(r: &RMsg) -> bool {
    fn val(v: &RVal) -> bool {
        match v {
            RVal::F32(x) => x.is_nan(),
            RVal::F64(x) => x.is_nan(),
            RVal::Msg(m) => has_nan(m),
            RVal::List(l) => l.iter().any(val),
            RVal::Map(l) => l.values().any(val),
            _ => false,
        }
    }
    r.f.values().any(val)
}
fn has_map(r: &RMsg) -> bool {
    r.f.values().any(|v| match v {
        RVal::Map(_) => true,
        RVal::Msg(m) => has_map(m),
        RVal::List(l) => l.iter().any(|v| matches!(v, RVal::Msg(m) if has_map(m))),
        _ => false,
    })
}
fn drop_exts(m: &Model, r: &mut RMsg) {
    fn val(m: &Model, v: &mut RVal) {
        match v {
            RVal::Msg(x) => drop_exts(m, x),
            RVal::List(l) => l.iter_mut().for_each(|v| val(m, v)),
            RVal::Map(l) => l.values_mut().for_each(|v| val(m, v)),
            _ => {}
        }
    }
    let mid = r.mid;
    r.f.retain(|n, _| matches!(m.field(mid, *n), Some(FRef::F(_))));
    r.f.values_mut().for_each(|v| val(m, v));
}
fn c04(c: &mut Ctx) -> R {
    let models = no_panic("the descriptors of the types", models)?;
    let std = models.len() - 1;
    // standard, hand-written, generated
    let (i, name, run) = match c.s.below(3) {
        0 => {
            let (n, r) = c.s.pick(STD_TYPES);
            (std, *n, *r)
        }
        _ if c.s.chance(1, 20) => {
            let (n, r) = c.s.pick(DERIVED);
            (0, *n, *r)
        }
        k => {
            let l: Vec<&(usize, &str, Run)> = crate::TYPES.iter().filter(|t| (t.0 == 0) == (k == 1)).collect();
            let t = *c.s.pick(&l);
            (t.0, t.1, t.2)
        }
    };
    c.label(if i == std { "standard type" } else if i == 0 { "hand-written schema" } else { "generated schema" });
    let (m, pool) = &models[i];
    let mid = m.find_msg(name).ok_or_else(|| Fail { sig: "harness".into(), msg: format!("no {name}") })?;
    let env = Env::with_pool(m, pool.clone()).map_err(|e| Fail { sig: "missing".into(), msg: e })?;
    run(c, &env, mid)
}

fn gen(c: &mut Ctx, m: &Model, mid: usize, json_safe: bool) -> (RMsg, Vec<u8>) {
    let mut vc = VCfg { json_safe, budget: 40, ..Default::default() };
    let mut v = gen_msg(&mut c.s, m, mid, 5, &mut vc);
    drop_exts(m, &mut v);
    let b = wire::enc(m, &v);
    (v, b)
}

pub fn one<T>(c: &mut Ctx, e: &Env, mid: usize) -> R
where
    T: ReflectMessage + Default + PartialEq + Debug + Clone + 'static,
{
    let m = e.m;
    let name = &m.msgs[mid].full_name;
    let json_safe = c.s.flip();
    let (v, b) = gen(c, m, mid, json_safe);
    c.note(|| format!("{name} {v:?}"));
    c.digest(name.as_bytes());
    c.digest(&b);
    c.nontrivial = weight(&v) >= 2;
    // the struct; what it holds is read from its encoding, written by prost
    let t = T::decode(&b[..]).map_err(|x| Fail { sig: "harness".into(), msg: format!("prost cannot decode {name}: {x}") })?;
    let read = |b: &[u8]| -> Result<RMsg, Fail> {
        let mut r = wire::dec(m, mid, b).map_err(|x| Fail { sig: "harness".into(), msg: x })?;
        wire::normalize(m, &mut r);
        Ok(r)
    };
    let tb = t.encode_to_vec();
    let r = read(&tb)?;
    let nan = has_nan(&r);
    // equality of structs, where NaN and the order of map entries do not matter
    let same = |a: &T, b: &T| -> Result<bool, Fail> {
        let x = read(&a.encode_to_vec())? == read(&b.encode_to_vec())?;
        Ok(x && (nan || a == b))
    };
    // descriptor
    let desc = no_panic("descriptor", || t.descriptor())?;
    ensure!(desc.full_name() == name, "descriptor", "the descriptor of {name} is {}", desc.full_name());
    ensure!(desc == e.msgs[mid] && desc.parent_pool() == &e.pool, "descriptor", "the descriptor of {name} is of another pool");
    ensure!(Box::new(t.clone()).descriptor() == desc, "descriptor", "the descriptor of a box of {name}");
    let o: Box<dyn ReflectMessage> = Box::new(t.clone());
    ensure!(o.descriptor() == desc, "descriptor", "the descriptor of a trait object of {name}");
    let file = &e.m.files[m.msgs[mid].file].name;
    let (want, got) = (definition(file, m, mid), desc.descriptor_proto());
    ensure!(want.as_ref() == Some(got) && desc.parent_file().name() == file, "descriptor", "the definition of {name} is {got:?}, expected {want:?}");
    // to dynamic: the contents
    let d = no_panic("transcode_to_dynamic", || t.transcode_to_dynamic())?;
    ensure!(d.descriptor() == desc, "to-dynamic", "{name} becomes a {}", d.descriptor().full_name());
    let got = e.from_dyn(&d);
    ensure!(got == r, "to-dynamic", "{name}: {}", diff(m, &r, &got));
    let back = no_panic("transcode_to", || d.transcode_to::<T>())?.map_err(|x| Fail { sig: "round-trip".into(), msg: format!("{name}: {x}") })?;
    ensure!(same(&t, &back)?, "round-trip", "{t:?} becomes {back:?}");
    // the encodings
    let db = d.encode_to_vec();
    // (structs leave out default keys and values of maps)
    ensure!(d.encoded_len() == db.len() && (has_map(&r) && db.len() > tb.len() || db.len() == tb.len()), "length", "{name}: {} bytes as a struct, {} as a dynamic message ({})", tb.len(), db.len(), d.encoded_len());
    let x = T::decode(&db[..]).map_err(|x| Fail { sig: "decode-typed".into(), msg: format!("{name}: {x}") })?;
    ensure!(same(&t, &x)?, "decode-typed", "{t:?} is read from the dynamic message's bytes as {x:?}");
    let x = no_panic("decode", || DynamicMessage::decode(desc.clone(), &tb[..]))?.map_err(|x| Fail { sig: "decode-dynamic".into(), msg: format!("{name}: {x}") })?;
    ensure!(e.from_dyn(&x) == r, "decode-dynamic", "{name}: {}", diff(m, &r, &e.from_dyn(&x)));
    ensure!(nan || x == d, "decode-dynamic", "{name}: messages of equal contents differ");
    // length-delimited
    let ld = d.encode_length_delimited_to_vec();
    let x = T::decode_length_delimited(&ld[..]).map_err(|x| Fail { sig: "length-delimited".into(), msg: format!("{name}: {x}") })?;
    ensure!(same(&t, &x)?, "length-delimited", "{t:?} is read from the dynamic message's bytes as {x:?}");
    // a dynamic message made by setting the fields
    let set = no_panic("setting the fields", || e.to_dyn(&r))?;
    let x = no_panic("transcode_to", || set.transcode_to::<T>())?.map_err(|x| Fail { sig: "from-fields".into(), msg: format!("{name}: {x}") })?;
    ensure!(same(&t, &x)?, "from-fields", "{t:?} made of the same fields is {x:?}");
    // merging
    if c.s.chance(1, 3) {
        let (v2, b2) = gen(c, m, mid, json_safe);
        c.note(|| format!("merged: {v2:?}"));
        let t2 = T::decode(&b2[..]).unwrap();
        let t2b = t2.encode_to_vec();
        let mut want = t.clone();
        want.merge(&t2b[..]).map_err(|x| Fail { sig: "harness".into(), msg: x.to_string() })?;
        let mut md = d.clone();
        no_panic("transcode_from", || md.transcode_from(&t2))?.map_err(|x| Fail { sig: "merge".into(), msg: format!("{name}: {x}") })?;
        let wr = read(&want.encode_to_vec())?;
        ensure!(e.from_dyn(&md) == wr, "merge", "{name}: {}", diff(m, &wr, &e.from_dyn(&md)));
        let got = md.transcode_to::<T>().map_err(|x| Fail { sig: "merge".into(), msg: format!("{name}: {x}") })?;
        ensure!(read(&got.encode_to_vec())? == wr, "merge", "{want:?} as dynamic messages is {got:?}");
    }
    // of the same type in another pool
    if c.s.chance(1, 8) {
        let other = DescriptorPool::decode(&e.pool.encode_to_vec()[..]).map_err(|x| Fail { sig: "pool".into(), msg: x.to_string() })?;
        let e2 = Env::with_pool(m, other).map_err(|x| Fail { sig: "pool".into(), msg: x })?;
        let mut d2 = DynamicMessage::new(e2.msgs[mid].clone());
        no_panic("transcode_from", || d2.transcode_from(&t))?.map_err(|x| Fail { sig: "other-pool".into(), msg: format!("{name}: {x}") })?;
        ensure!(e2.from_dyn(&d2) == r, "other-pool", "{name}: {}", diff(m, &r, &e2.from_dyn(&d2)));
        let x = d2.transcode_to::<T>().map_err(|x| Fail { sig: "other-pool".into(), msg: x.to_string() })?;
        ensure!(same(&t, &x)?, "other-pool", "{t:?} through another pool is {x:?}");
        // dynamic to dynamic
        let mut d3 = DynamicMessage::new(desc.clone());
        no_panic("transcode_from", || d3.transcode_from(&d2))?.map_err(|x| Fail { sig: "other-pool".into(), msg: x.to_string() })?;
        ensure!(e.from_dyn(&d3) == r, "other-pool", "{name}: {}", diff(m, &r, &e.from_dyn(&d3)));
    }
    // JSON
    if json_safe {
        let j = no_panic("JSON", || serde_json::to_string(&d))?.map_err(|x| Fail { sig: "json".into(), msg: format!("{name}: {x}") })?;
        let mut de = serde_json::Deserializer::from_str(&j);
        let x = no_panic("JSON", || DynamicMessage::deserialize(desc.clone(), &mut de))?.map_err(|x| Fail { sig: "json".into(), msg: format!("{name}: {x}; {j}") })?;
        let x = x.transcode_to::<T>().map_err(|x| Fail { sig: "json".into(), msg: format!("{name}: {x}; {j}") })?;
        let xr = read(&x.encode_to_vec())?;
        ensure!(any_equal(m, &xr, &r), "json", "{t:?} is read from {j} as {x:?}: {}", diff(m, &r, &xr));
    }
    // text
    let f = FormatOptions::new().pretty(c.s.flip()).skip_default_fields(c.s.flip()).expand_any(c.s.flip());
    let x = no_panic("text", || d.to_text_format_with_options(&f))?;
    let p = no_panic("text", || DynamicMessage::parse_text_format(desc.clone(), &x))?.map_err(|y| Fail { sig: "text".into(), msg: format!("{name}: {y}; {x}") })?;
    let y = p.transcode_to::<T>().map_err(|y| Fail { sig: "text".into(), msg: format!("{name}: {y}; {x}") })?;
    let yr = read(&y.encode_to_vec())?;
    ensure!(any_equal(m, &yr, &r), "text", "{t:?} is read from {x} as {y:?}: {}", diff(m, &r, &yr));
    Ok(())
}
