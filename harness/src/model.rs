//! The harness's own description of a set of .proto files, independent of prost-reflect, plus a
//! generator for it.  Everything the checks compare against is derived from this model.

use crate::src::Src;
use crate::value::RVal;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{descriptor_proto, enum_descriptor_proto, DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto, FieldDescriptorProto, FieldOptions, FileDescriptorProto, FileDescriptorSet, FileOptions, MessageOptions, MethodDescriptorProto, OneofDescriptorProto, ServiceDescriptorProto};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Double, Float, Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, Bool, String, Bytes,
    Enum(usize),
    Message(usize),
    Group(usize),
}
pub const SCALARS: [Ty; 15] = [
    Ty::Int32, Ty::String, Ty::Bool, Ty::Int64, Ty::Uint32, Ty::Uint64, Ty::Sint32, Ty::Sint64, Ty::Fixed32, Ty::Fixed64,
    Ty::Sfixed32, Ty::Sfixed64, Ty::Float, Ty::Double, Ty::Bytes,
];
pub const MAP_KEYS: [Ty; 12] = [
    Ty::String, Ty::Int32, Ty::Bool, Ty::Int64, Ty::Uint32, Ty::Uint64, Ty::Sint32, Ty::Sint64, Ty::Fixed32, Ty::Fixed64,
    Ty::Sfixed32, Ty::Sfixed64,
];

impl Ty {
    pub fn packable(self) -> bool {
        !matches!(self, Ty::String | Ty::Bytes | Ty::Message(_) | Ty::Group(_))
    }
    pub fn msg(self) -> Option<usize> {
        match self {
            Ty::Message(m) | Ty::Group(m) => Some(m),
            _ => None,
        }
    }
    /// wire type number for a single (unpacked) element
    pub fn wire(self) -> u8 {
        match self {
            Ty::Double | Ty::Fixed64 | Ty::Sfixed64 => 1,
            Ty::Float | Ty::Fixed32 | Ty::Sfixed32 => 5,
            Ty::String | Ty::Bytes | Ty::Message(_) => 2,
            Ty::Group(_) => 3,
            _ => 0,
        }
    }
    pub fn proto(self) -> Type {
        match self {
            Ty::Double => Type::Double,
            Ty::Float => Type::Float,
            Ty::Int32 => Type::Int32,
            Ty::Int64 => Type::Int64,
            Ty::Uint32 => Type::Uint32,
            Ty::Uint64 => Type::Uint64,
            Ty::Sint32 => Type::Sint32,
            Ty::Sint64 => Type::Sint64,
            Ty::Fixed32 => Type::Fixed32,
            Ty::Fixed64 => Type::Fixed64,
            Ty::Sfixed32 => Type::Sfixed32,
            Ty::Sfixed64 => Type::Sfixed64,
            Ty::Bool => Type::Bool,
            Ty::String => Type::String,
            Ty::Bytes => Type::Bytes,
            Ty::Enum(_) => Type::Enum,
            Ty::Message(_) => Type::Message,
            Ty::Group(_) => Type::Group,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Card { Optional, Required, Repeated }

#[derive(Clone, Debug)]
pub struct FieldDef {
    pub name: String,
    pub number: u32,
    pub card: Card,
    pub ty: Ty,
    pub oneof: Option<usize>,
    pub proto3_optional: bool,
    pub packed: Option<bool>,
    /// options message present even if packed is unset
    pub bare_options: bool,
    pub deprecated: Option<bool>,
    /// json_name written in the descriptor (None: left to be derived)
    pub json_name: Option<String>,
    pub default: Option<(RVal, String)>,
}
#[derive(Clone, Debug)]
pub struct ExtDef {
    pub f: FieldDef,
    pub full_name: String,
    pub file: usize,
    pub parent: Option<usize>,
    pub extendee: usize,
}
#[derive(Clone, Debug)]
pub struct OneofDef { pub name: String, pub synthetic: bool }
#[derive(Clone, Debug, Default)]
pub struct MsgDef {
    pub name: String,
    pub full_name: String,
    pub file: usize,
    pub parent: Option<usize>,
    pub fields: Vec<FieldDef>,
    pub oneofs: Vec<OneofDef>,
    pub nested: Vec<usize>,
    pub enums: Vec<usize>,
    pub exts: Vec<usize>,
    pub ext_ranges: Vec<(u32, u32)>,
    pub reserved: Vec<(u32, u32)>,
    pub reserved_names: Vec<String>,
    pub map_entry: bool,
    pub deprecated: Option<bool>,
}
#[derive(Clone, Debug, Default)]
pub struct EnumDef {
    pub name: String,
    pub full_name: String,
    pub file: usize,
    pub parent: Option<usize>,
    pub values: Vec<(String, i32)>,
    pub alias: bool,
    pub reserved: Vec<(i32, i32)>,
    pub reserved_names: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct MethodDef { pub name: String, pub input: usize, pub output: usize, pub cs: Option<bool>, pub ss: Option<bool> }
#[derive(Clone, Debug)]
pub struct ServiceDef { pub name: String, pub full_name: String, pub file: usize, pub methods: Vec<MethodDef> }
#[derive(Clone, Debug, Default)]
pub struct FileDef {
    pub name: String,
    pub package: String,
    pub proto3: bool,
    pub syntax: Option<String>,
    pub deps: Vec<usize>,
    /// indices into deps
    pub public: Vec<usize>,
    pub msgs: Vec<usize>,
    pub enums: Vec<usize>,
    pub exts: Vec<usize>,
    pub services: Vec<usize>,
    pub wkt: bool,
    pub java_package: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub files: Vec<FileDef>,
    pub msgs: Vec<MsgDef>,
    pub enums: Vec<EnumDef>,
    pub exts: Vec<ExtDef>,
    pub services: Vec<ServiceDef>,
}

pub fn json_camel(name: &str) -> String {
    let mut out = String::new();
    let mut up = false;
    for c in name.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.push(c.to_ascii_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}
fn join(scope: &str, name: &str) -> String {
    if scope.is_empty() { name.to_string() } else { format!("{scope}.{name}") }
}

/// A field as seen by the reference codecs: either a regular field or an extension.
#[derive(Clone, Copy)]
pub enum FRef<'a> { F(&'a FieldDef), X(&'a ExtDef) }
impl<'a> FRef<'a> {
    pub fn def(self) -> &'a FieldDef {
        match self { FRef::F(f) => f, FRef::X(x) => &x.f }
    }
}

impl Model {
    pub fn is_proto3(&self, mid: usize) -> bool {
        self.files[self.msgs[mid].file].proto3
    }
    pub fn json_name(&self, f: &FieldDef) -> String {
        f.json_name.clone().unwrap_or_else(|| json_camel(&f.name))
    }
    /// Whether the field's own name is the JSON name of another.
    pub fn shadowed(&self, mid: usize, f: &FieldDef) -> bool {
        self.msgs[mid].fields.iter().any(|g| g.number != f.number && g.json_name.as_deref() == Some(&f.name))
    }
    pub fn is_map(&self, f: &FieldDef) -> bool {
        f.card == Card::Repeated && matches!(f.ty, Ty::Message(m) if self.msgs[m].map_entry)
    }
    pub fn is_list(&self, f: &FieldDef) -> bool {
        f.card == Card::Repeated && !self.is_map(f)
    }
    pub fn map_kv(&self, f: &FieldDef) -> (&FieldDef, &FieldDef) {
        let m = &self.msgs[f.ty.msg().unwrap()];
        (m.fields.iter().find(|f| f.number == 1).unwrap(), m.fields.iter().find(|f| f.number == 2).unwrap())
    }
    pub fn has_presence(&self, mid: usize, fr: FRef) -> bool {
        match fr {
            FRef::X(x) => x.f.card != Card::Repeated,
            FRef::F(f) => f.card != Card::Repeated && (!self.is_proto3(mid) || f.ty.msg().is_some() || f.oneof.is_some()),
        }
    }
    pub fn is_packed(&self, mid: usize, fr: FRef) -> bool {
        let f = fr.def();
        let p3 = match fr {
            FRef::F(_) => self.is_proto3(mid),
            FRef::X(x) => self.files[x.file].proto3,
        };
        f.card == Card::Repeated && f.ty.packable() && f.packed.unwrap_or(p3)
    }
    pub fn field(&self, mid: usize, number: u32) -> Option<FRef<'_>> {
        if let Some(f) = self.msgs[mid].fields.iter().find(|f| f.number == number) {
            return Some(FRef::F(f));
        }
        self.exts.iter().find(|x| x.extendee == mid && x.f.number == number).map(FRef::X)
    }
    pub fn default_of(&self, f: &FieldDef) -> RVal {
        if self.is_map(f) {
            return RVal::Map(BTreeMap::new());
        }
        if f.card == Card::Repeated {
            return RVal::List(vec![]);
        }
        if let Some((v, _)) = &f.default {
            return v.clone();
        }
        self.zero(f.ty)
    }
    pub fn zero(&self, ty: Ty) -> RVal {
        match ty {
            Ty::Double => RVal::F64(0.0),
            Ty::Float => RVal::F32(0.0),
            Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => RVal::I32(0),
            Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => RVal::I64(0),
            Ty::Uint32 | Ty::Fixed32 => RVal::U32(0),
            Ty::Uint64 | Ty::Fixed64 => RVal::U64(0),
            Ty::Bool => RVal::Bool(false),
            Ty::String => RVal::Str(String::new()),
            Ty::Bytes => RVal::Bytes(vec![]),
            Ty::Enum(e) => RVal::Enum(self.enums[e].values[0].1),
            Ty::Message(m) | Ty::Group(m) => RVal::Msg(crate::value::RMsg::new(m)),
        }
    }
    pub fn find_msg(&self, full: &str) -> Option<usize> {
        self.msgs.iter().position(|m| m.full_name == full)
    }
    pub fn type_ref(&self, ty: Ty) -> Option<String> {
        match ty {
            Ty::Enum(e) => Some(format!(".{}", self.enums[e].full_name)),
            Ty::Message(m) | Ty::Group(m) => Some(format!(".{}", self.msgs[m].full_name)),
            _ => None,
        }
    }

    // ---- emission --------------------------------------------------------------------------

    pub fn field_proto(&self, f: &FieldDef) -> FieldDescriptorProto {
        FieldDescriptorProto {
            name: Some(f.name.clone()),
            number: Some(f.number as i32),
            label: Some(match f.card {
                Card::Optional => Label::Optional,
                Card::Required => Label::Required,
                Card::Repeated => Label::Repeated,
            } as i32),
            r#type: Some(f.ty.proto() as i32),
            type_name: self.type_ref(f.ty),
            extendee: None,
            default_value: f.default.as_ref().map(|d| d.1.clone()),
            oneof_index: f.oneof.map(|o| o as i32),
            json_name: f.json_name.clone(),
            options: if f.packed.is_some() || f.bare_options || f.deprecated.is_some() {
                Some(FieldOptions { packed: f.packed, deprecated: f.deprecated, ..Default::default() })
            } else {
                None
            },
            proto3_optional: if f.proto3_optional { Some(true) } else { None },
        }
    }
    pub fn ext_proto(&self, x: &ExtDef) -> FieldDescriptorProto {
        let mut p = self.field_proto(&x.f);
        p.extendee = Some(format!(".{}", self.msgs[x.extendee].full_name));
        p
    }
    pub fn enum_proto(&self, e: usize) -> EnumDescriptorProto {
        let e = &self.enums[e];
        EnumDescriptorProto {
            name: Some(e.name.clone()),
            value: e
                .values
                .iter()
                .map(|(n, v)| EnumValueDescriptorProto { name: Some(n.clone()), number: Some(*v), options: None })
                .collect(),
            options: if e.alias { Some(EnumOptions { allow_alias: Some(true), ..Default::default() }) } else { None },
            reserved_range: e
                .reserved
                .iter()
                .map(|r| enum_descriptor_proto::EnumReservedRange { start: Some(r.0), end: Some(r.1) })
                .collect(),
            reserved_name: e.reserved_names.clone(),
        }
    }
    pub fn msg_proto(&self, m: usize) -> DescriptorProto {
        let m = &self.msgs[m];
        DescriptorProto {
            name: Some(m.name.clone()),
            field: m.fields.iter().map(|f| self.field_proto(f)).collect(),
            extension: m.exts.iter().map(|&x| self.ext_proto(&self.exts[x])).collect(),
            nested_type: m.nested.iter().map(|&n| self.msg_proto(n)).collect(),
            enum_type: m.enums.iter().map(|&n| self.enum_proto(n)).collect(),
            extension_range: m
                .ext_ranges
                .iter()
                .map(|r| descriptor_proto::ExtensionRange { start: Some(r.0 as i32), end: Some(r.1 as i32), options: None })
                .collect(),
            oneof_decl: m
                .oneofs
                .iter()
                .map(|o| OneofDescriptorProto { name: Some(o.name.clone()), options: None })
                .collect(),
            options: if m.map_entry || m.deprecated.is_some() {
                Some(MessageOptions {
                    map_entry: if m.map_entry { Some(true) } else { None },
                    deprecated: m.deprecated,
                    ..Default::default()
                })
            } else {
                None
            },
            reserved_range: m
                .reserved
                .iter()
                .map(|r| descriptor_proto::ReservedRange { start: Some(r.0 as i32), end: Some(r.1 as i32) })
                .collect(),
            reserved_name: m.reserved_names.clone(),
        }
    }
    pub fn file_proto(&self, i: usize) -> FileDescriptorProto {
        let f = &self.files[i];
        FileDescriptorProto {
            name: Some(f.name.clone()),
            package: if f.package.is_empty() { None } else { Some(f.package.clone()) },
            dependency: f.deps.iter().map(|&d| self.files[d].name.clone()).collect(),
            public_dependency: f.public.iter().map(|&p| p as i32).collect(),
            weak_dependency: vec![],
            message_type: f.msgs.iter().map(|&m| self.msg_proto(m)).collect(),
            enum_type: f.enums.iter().map(|&m| self.enum_proto(m)).collect(),
            service: f
                .services
                .iter()
                .map(|&s| {
                    let s = &self.services[s];
                    ServiceDescriptorProto {
                        name: Some(s.name.clone()),
                        method: s
                            .methods
                            .iter()
                            .map(|m| MethodDescriptorProto {
                                name: Some(m.name.clone()),
                                input_type: Some(format!(".{}", self.msgs[m.input].full_name)),
                                output_type: Some(format!(".{}", self.msgs[m.output].full_name)),
                                options: None,
                                client_streaming: m.cs,
                                server_streaming: m.ss,
                            })
                            .collect(),
                        options: None,
                    }
                })
                .collect(),
            extension: f.exts.iter().map(|&x| self.ext_proto(&self.exts[x])).collect(),
            options: f.java_package.as_ref().map(|j| FileOptions { java_package: Some(j.clone()), ..Default::default() }),
            source_code_info: None,
            syntax: f.syntax.clone(),
        }
    }
    pub fn fds(&self) -> FileDescriptorSet {
        FileDescriptorSet { file: (0..self.files.len()).map(|i| self.file_proto(i)).collect() }
    }
    pub fn pool(&self) -> Result<prost_reflect::DescriptorPool, String> {
        prost_reflect::DescriptorPool::from_file_descriptor_set(self.fds())
            .map_err(|e| format!("valid generated schema rejected: {e} {e:?}"))
    }

    // ---- loading (absolute names only), used for the well-known types ---------------------

    pub fn load_fds(fds: &FileDescriptorSet) -> Model {
        let mut m = Model::default();
        for f in &fds.file {
            let fi = m.files.len();
            let deps = f.dependency.iter().map(|d| m.files.iter().position(|x| &x.name == d).expect("dep")).collect();
            m.files.push(FileDef {
                name: f.name().into(),
                package: f.package().into(),
                proto3: f.syntax() == "proto3",
                syntax: f.syntax.clone(),
                deps,
                public: f.public_dependency.iter().map(|&p| p as usize).collect(),
                wkt: f.name().starts_with("google/protobuf/"),
                ..Default::default()
            });
            for e in &f.enum_type {
                let id = m.load_enum(fi, None, f.package(), e);
                m.files[fi].enums.push(id);
            }
            for d in &f.message_type {
                let id = m.load_msg(fi, None, f.package(), d);
                m.files[fi].msgs.push(id);
            }
        }
        let msgs: HashMap<String, usize> = m.msgs.iter().enumerate().map(|(i, x)| (format!(".{}", x.full_name), i)).collect();
        let enums: HashMap<String, usize> = m.enums.iter().enumerate().map(|(i, x)| (format!(".{}", x.full_name), i)).collect();
        for f in &fds.file {
            for d in &f.message_type {
                m.load_fields(f.package(), d, &msgs, &enums);
            }
        }
        m
    }
    fn load_enum(&mut self, file: usize, parent: Option<usize>, scope: &str, e: &EnumDescriptorProto) -> usize {
        self.enums.push(EnumDef {
            name: e.name().into(),
            full_name: join(scope, e.name()),
            file,
            parent,
            values: e.value.iter().map(|v| (v.name().to_string(), v.number())).collect(),
            alias: e.options.as_ref().map_or(false, |o| o.allow_alias()),
            reserved: vec![],
            reserved_names: vec![],
        });
        self.enums.len() - 1
    }
    fn load_msg(&mut self, file: usize, parent: Option<usize>, scope: &str, d: &DescriptorProto) -> usize {
        let id = self.msgs.len();
        let full = join(scope, d.name());
        self.msgs.push(MsgDef {
            name: d.name().into(),
            full_name: full.clone(),
            file,
            parent,
            oneofs: d
                .oneof_decl
                .iter()
                .enumerate()
                .map(|(i, o)| OneofDef { name: o.name().into(), synthetic: d.field.iter().any(|f| f.proto3_optional() && f.oneof_index == Some(i as i32)) })
                .collect(),
            ext_ranges: d.extension_range.iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
            map_entry: d.options.as_ref().map_or(false, |o| o.map_entry()),
            ..Default::default()
        });
        for e in &d.enum_type {
            let eid = self.load_enum(file, Some(id), &full, e);
            self.msgs[id].enums.push(eid);
        }
        for n in &d.nested_type {
            let nid = self.load_msg(file, Some(id), &full, n);
            self.msgs[id].nested.push(nid);
        }
        id
    }
    fn load_fields(&mut self, scope: &str, d: &DescriptorProto, msgs: &HashMap<String, usize>, enums: &HashMap<String, usize>) {
        let full = join(scope, d.name());
        let id = msgs[&format!(".{full}")];
        for f in &d.field {
            let ty = match f.r#type() {
                Type::Message => Ty::Message(msgs[f.type_name()]),
                Type::Group => Ty::Group(msgs[f.type_name()]),
                Type::Enum => Ty::Enum(enums[f.type_name()]),
                t => *SCALARS.iter().find(|s| s.proto() == t).unwrap(),
            };
            self.msgs[id].fields.push(FieldDef {
                name: f.name().into(),
                number: f.number() as u32,
                card: match f.label() {
                    Label::Optional => Card::Optional,
                    Label::Required => Card::Required,
                    Label::Repeated => Card::Repeated,
                },
                ty,
                oneof: f.oneof_index.map(|o| o as usize),
                proto3_optional: f.proto3_optional(),
                packed: f.options.as_ref().and_then(|o| o.packed),
                bare_options: f.options.is_some(),
                deprecated: None,
                json_name: f.json_name.clone(),
                default: f.default_value.clone().map(|t| {
                    let v = match ty {
                        Ty::Bool => RVal::Bool(t == "true"),
                        Ty::Enum(e) => RVal::Enum(self.enums[e].values.iter().find(|v| v.0 == t).unwrap().1),
                        Ty::Double => RVal::F64(t.parse().unwrap()),
                        Ty::Float => RVal::F32(t.parse().unwrap()),
                        Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => RVal::I32(t.parse().unwrap()),
                        Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => RVal::I64(t.parse().unwrap()),
                        Ty::Uint32 | Ty::Fixed32 => RVal::U32(t.parse().unwrap()),
                        Ty::Uint64 | Ty::Fixed64 => RVal::U64(t.parse().unwrap()),
                        Ty::String => RVal::Str(t.clone()),
                        Ty::Bytes => RVal::Bytes(c_unescape(&t)),
                        _ => panic!("harness: default of a field of the base model"),
                    };
                    (v, t)
                }),
            });
        }
        for n in &d.nested_type {
            self.load_fields(&full, n, msgs, enums);
        }
    }
}

// ---- generation ------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Cfg {
    pub wkt: bool,
    pub exts: bool,
    pub groups: bool,
    pub services: bool,
    pub max_files: u64,
    pub max_msgs: u64,
    pub max_fields: u64,
    pub proto2_only: bool,
    pub proto3_only: bool,
    /// custom json names, possibly with odd characters
    pub odd_json: bool,
    /// sometimes one field's JSON name is another's own name
    pub cross_json: bool,
    pub reserved: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            wkt: false, exts: true, groups: true, services: false, max_files: 2, max_msgs: 4, max_fields: 6, proto2_only: false,
            proto3_only: false, odd_json: true, cross_json: false, reserved: true,
        }
    }
}

pub const WKT_NAMES: [&str; 17] = [
    "google.protobuf.Any", "google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.Struct",
    "google.protobuf.Value", "google.protobuf.ListValue", "google.protobuf.FieldMask", "google.protobuf.Empty",
    "google.protobuf.DoubleValue", "google.protobuf.FloatValue", "google.protobuf.Int64Value", "google.protobuf.UInt64Value",
    "google.protobuf.Int32Value", "google.protobuf.UInt32Value", "google.protobuf.BoolValue", "google.protobuf.StringValue",
    "google.protobuf.BytesValue",
];

/// descriptor.proto as the library has it
pub fn desc_model() -> Arc<Model> {
    use std::sync::OnceLock;
    static M: OnceLock<Arc<Model>> = OnceLock::new();
    M.get_or_init(|| Arc::new(Model::load_fds(&FileDescriptorSet { file: vec![desc_file()] }))).clone()
}
pub fn desc_file() -> FileDescriptorProto {
    prost_reflect::DescriptorPool::global().get_file_by_name("google/protobuf/descriptor.proto").unwrap().file_descriptor_proto().clone()
}

pub fn wkt_model() -> Arc<Model> {
    use std::sync::OnceLock;
    static M: OnceLock<Arc<Model>> = OnceLock::new();
    M.get_or_init(|| {
        let fds = <FileDescriptorSet as prost::Message>::decode(&include_bytes!("../wkt.bin")[..]).unwrap();
        Arc::new(Model::load_fds(&fds))
    })
    .clone()
}

struct Gen<'a> {
    s: &'a mut Src,
    m: Model,
    cfg: Cfg,
    ctr: u32,
    group_types: HashSet<usize>,
}

const WORDS: [&str; 24] = [
    "a", "foo", "bar", "value", "key", "id", "item", "x", "data", "inner", "opt", "name", "type", "b2", "list", "url",
    "seconds", "nanos", "fields", "paths", "self", "r", "q", "zz",
];

impl<'a> Gen<'a> {
    fn uniq(&mut self) -> u32 {
        self.ctr += 1;
        self.ctr
    }
    /// snake-ish field name, unique after lowercasing and stripping underscores (guaranteed by the
    /// numeric suffix being delimited from word digits).
    fn field_name(&mut self) -> String {
        let u = self.uniq();
        let w = *self.s.pick(&WORDS);
        match self.s.weighted(&[5, 3, 2, 1, 1, 1, 1, 1, 1]) {
            0 => format!("{w}_n{u}"),
            1 => {
                let w2 = *self.s.pick(&WORDS);
                format!("{w}_{w2}_n{u}")
            }
            2 => format!("{w}N{u}"),
            3 => format!("_{w}_n{u}"),
            4 => format!("{w}_n{u}_"),
            5 => format!("{}_n{u}", w.to_uppercase()),
            6 => format!("{w}__n{u}"),
            7 => format!("{w}_{u}"),
            _ => format!("{}{}N_{u}x", w[..1].to_uppercase(), &w[1..]),
        }
    }
    fn type_name(&mut self) -> String {
        let u = self.uniq();
        let w = *self.s.pick(&WORDS);
        match self.s.weighted(&[5, 1, 1]) {
            0 => format!("{}{}M{u}", w[..1].to_uppercase(), &w[1..]),
            1 => format!("{w}_m{u}"),
            _ => format!("M{u}_{w}"),
        }
    }
    fn full(&self, file: usize, parent: Option<usize>, name: &str) -> String {
        match parent {
            Some(p) => join(&self.m.msgs[p].full_name, name),
            None => join(&self.m.files[file].package, name),
        }
    }
    fn new_msg(&mut self, file: usize, parent: Option<usize>, name: String) -> usize {
        let full_name = self.full(file, parent, &name);
        let id = self.m.msgs.len();
        self.m.msgs.push(MsgDef { name, full_name, file, parent, ..Default::default() });
        match parent {
            Some(p) => self.m.msgs[p].nested.push(id),
            None => self.m.files[file].msgs.push(id),
        }
        id
    }
    fn new_enum(&mut self, file: usize, parent: Option<usize>) -> usize {
        let name = self.type_name();
        let full_name = self.full(file, parent, &name);
        let n = 1 + if self.s.chance(1, 40) { 8 + self.s.us(20) } else { self.s.size(3, 8) };
        let mut values: Vec<(String, i32)> = vec![];
        let alias = self.s.chance(1, 5);
        let mut used = HashSet::new();
        for i in 0..n {
            let u = self.uniq();
            let nm = match self.s.weighted(&[8, 2, 2, if values.is_empty() { 0 } else { 1 }]) {
                0 => format!("VAL_{u}"),
                1 => format!("v{u}"),
                2 => format!("{}_{u}", self.s.pick(&WORDS)),
                // an earlier name with something before or after it
                _ => {
                    let old = self.s.pick(&values).0.clone();
                    if self.s.flip() { format!("X{u}_{old}") } else { format!("{old}_{u}") }
                }
            };
            let last_shorter = !values.is_empty() && i == n - 1 && self.s.chance(1, 4);
            let mut num = if i == 0 && self.m.files[file].proto3 {
                0
            } else {
                match self.s.weighted(&[4, 2, 1]) {
                    0 => i as i32,
                    1 => self.s.i32v(),
                    _ => *self.s.pick(&[-1, i32::MAX, i32::MIN, 2]),
                }
            };
            let make_alias = alias && i > 0 && self.s.flip();
            if make_alias {
                num = values[self.s.us(values.len())].1;
            } else {
                while used.contains(&num) {
                    num = num.wrapping_add(1);
                }
            }
            used.insert(num);
            values.push((nm, num));
            if last_shorter {
                // the longer name comes first
                let k = values.len() - 1;
                let old = format!("L{u}");
                values[k - 1].0 = if self.s.flip() { format!("X{u}_{old}") } else { format!("{old}_X") };
                values[k].0 = old;
            }
        }
        let id = self.m.enums.len();
        let mut e = EnumDef { name, full_name, file, parent, alias, values, ..Default::default() };
        e.alias = e.values.iter().map(|v| v.1).collect::<HashSet<_>>().len() != e.values.len() || (alias && false);
        if self.cfg.reserved && self.s.chance(1, 6) {
            let mut start = 1000;
            while (start..=start + 5).any(|x| used.contains(&x)) {
                start += 7;
            }
            e.reserved.push((start, start + self.s.range(0, 5) as i32));
            e.reserved_names.push(format!("RES_{}", self.ctr));
        }
        self.m.enums.push(e);
        match parent {
            Some(p) => self.m.msgs[p].enums.push(id),
            None => self.m.files[file].enums.push(id),
        }
        id
    }
    fn visible_files(&self, file: usize) -> BTreeSet<usize> {
        let mut v = BTreeSet::new();
        v.insert(file);
        let mut stack: Vec<usize> = self.m.files[file].deps.clone();
        while let Some(d) = stack.pop() {
            if v.insert(d) {
                let fd = &self.m.files[d];
                stack.extend(fd.public.iter().map(|&p| fd.deps[p]));
            }
        }
        v
    }
    fn pick_type(&mut self, file: usize, allow_msg: bool) -> Ty {
        let p3 = self.m.files[file].proto3;
        let vis = self.visible_files(file);
        match self.s.weighted(&[10, 3, if allow_msg { 5 } else { 0 }, if allow_msg && self.cfg.wkt { 4 } else { 0 }]) {
            0 => *self.s.pick(&SCALARS),
            1 => {
                let es: Vec<usize> = (0..self.m.enums.len())
                    .filter(|&e| {
                        let ef = self.m.enums[e].file;
                        vis.contains(&ef) && (!self.m.files[ef].wkt || self.cfg.wkt && self.m.enums[e].full_name.ends_with("NullValue"))
                            && (!p3 || self.m.files[ef].proto3)
                    })
                    .collect();
                if es.is_empty() { Ty::Int32 } else { Ty::Enum(*self.s.pick(&es)) }
            }
            2 => {
                let ms: Vec<usize> = (0..self.m.msgs.len())
                    .filter(|&i| {
                        let mf = self.m.msgs[i].file;
                        vis.contains(&mf) && !self.m.files[mf].wkt && !self.m.msgs[i].map_entry && !self.group_types.contains(&i)
                    })
                    .collect();
                if ms.is_empty() { Ty::String } else { Ty::Message(*self.s.pick(&ms)) }
            }
            _ => {
                let n = *self.s.pick(&WKT_NAMES);
                Ty::Message(self.m.find_msg(n).unwrap())
            }
        }
    }

    fn pick_number(&mut self, mid: usize) -> u32 {
        let mut n = match self.s.weighted(&[8, 2, 1, 1]) {
            0 => 1 + self.s.below(15) as u32,
            1 => 16 + self.s.below(2032) as u32,
            2 => 2048 + self.s.below(16000) as u32,
            _ => *self.s.pick(&[536_870_911u32, 18999, 20000, 2047, 2048, 262143, 262144, 33554431, 33554432, 16, 15]),
        };
        let m = &self.m.msgs[mid];
        let bad = |n: u32| {
            m.fields.iter().any(|f| f.number == n)
                || m.ext_ranges.iter().chain(&m.reserved).any(|r| n >= r.0 && n < r.1)
                || (19000..20000).contains(&n)
                || n > 536_870_911
                || n == 0
        };
        while bad(n) {
            let skip = m.ext_ranges.iter().chain(&m.reserved).filter(|r| n >= r.0 && n < r.1).map(|r| r.1).max();
            n = skip.unwrap_or(n + 1);
            if n > 536_870_911 {
                n = 1;
            }
        }
        n
    }
    fn json_name(&mut self, name: &str) -> Option<String> {
        let u = self.ctr;
        match self.s.weighted(&[4, 4, if self.cfg.odd_json { 2 } else { 0 }]) {
            0 => None,
            1 => Some(json_camel(name)),
            _ => Some(match self.s.below(6) {
                0 => format!("Custom{u}"),
                1 => format!("with space {u}"),
                2 => format!("q\"{u}"),
                3 => format!("uni\u{e9}\u{1f600}{u}"),
                4 => format!("{u}digits"),
                _ => format!("dash-{u}.x"),
            }),
        }
    }
    fn default_for(&mut self, ty: Ty) -> Option<(RVal, String)> {
        Some(match ty {
            Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => {
                let v = self.s.i32v();
                (RVal::I32(v), v.to_string())
            }
            Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => {
                let v = self.s.i64v();
                (RVal::I64(v), v.to_string())
            }
            Ty::Uint32 | Ty::Fixed32 => {
                let v = self.s.u32v();
                (RVal::U32(v), v.to_string())
            }
            Ty::Uint64 | Ty::Fixed64 => {
                let v = self.s.u64v();
                (RVal::U64(v), v.to_string())
            }
            Ty::Bool => {
                let v = self.s.flip();
                (RVal::Bool(v), v.to_string())
            }
            Ty::Float => {
                let v = self.s.f32v();
                (RVal::F32(v), float_default(v as f64, format!("{v:e}")))
            }
            Ty::Double => {
                let v = self.s.f64v();
                (RVal::F64(v), float_default(v, format!("{v:e}")))
            }
            Ty::String => {
                let v = self.s.string();
                (RVal::Str(v.clone()), v)
            }
            Ty::Bytes => {
                let v = self.s.bytes();
                let t = if self.s.chance(1, 3) { c_escape_freely(self.s, &v) } else { c_escape(&v) };
                (RVal::Bytes(v), t)
            }
            Ty::Enum(e) => {
                let (n, v) = self.s.pick(&self.m.enums[e].values.clone()).clone();
                (RVal::Enum(v), n)
            }
            _ => return None,
        })
    }
    fn add_field(&mut self, mid: usize) {
        let file = self.m.msgs[mid].file;
        let p3 = self.m.files[file].proto3;
        let number = self.pick_number(mid);
        let kind = self.s.weighted(&[6, 3, 2, if !p3 && self.cfg.groups { 1 } else { 0 }]);
        // 0 singular, 1 repeated, 2 map, 3 group
        let name = self.field_name();
        let mut f = FieldDef {
            json_name: self.json_name(&name),
            name,
            number,
            card: Card::Optional,
            ty: Ty::Int32,
            oneof: None,
            proto3_optional: false,
            packed: None,
            bare_options: self.s.chance(1, 8),
            deprecated: if self.s.chance(1, 12) { Some(self.s.flip()) } else { None },
            default: None,
        };
        match kind {
            0 => {
                f.ty = self.pick_type(file, true);
                if !p3 {
                    if self.s.chance(1, 8) {
                        f.card = Card::Required;
                    } else if self.s.chance(1, 3) {
                        f.default = self.default_for(f.ty);
                    }
                }
            }
            1 => {
                f.card = Card::Repeated;
                f.ty = self.pick_type(file, true);
                if f.ty.packable() && self.s.chance(1, 3) {
                    f.packed = Some(!self.s.flip());
                }
            }
            2 => {
                let kty = *self.s.pick(&MAP_KEYS);
                let vty = self.pick_type(file, true);
                let ename = map_entry_name(&f.name);
                let eid = self.new_msg(file, Some(mid), ename);
                self.m.msgs[eid].map_entry = true;
                for (n, num, ty) in [("key", 1, kty), ("value", 2, vty)] {
                    self.m.msgs[eid].fields.push(FieldDef {
                        name: n.into(),
                        number: num,
                        card: Card::Optional,
                        ty,
                        oneof: None,
                        proto3_optional: false,
                        packed: None,
                        bare_options: false,
                        deprecated: None,
                        json_name: if f.json_name.is_some() { Some(n.into()) } else { None },
                        default: None,
                    });
                }
                f.card = Card::Repeated;
                f.ty = Ty::Message(eid);
            }
            _ => {
                let u = self.uniq();
                let w = *self.s.pick(&WORDS);
                let gname = format!("G{w}{u}");
                f.name = gname.to_lowercase();
                f.json_name = if self.s.flip() { Some(json_camel(&f.name)) } else { None };
                let gid = self.new_msg(file, Some(mid), gname);
                self.group_types.insert(gid);
                f.ty = Ty::Group(gid);
                if self.s.flip() {
                    f.card = Card::Repeated;
                }
                let n = self.s.below(3);
                for _ in 0..n {
                    self.add_field(gid);
                }
            }
        }
        self.m.msgs[mid].fields.push(f);
    }
    /// Turns runs of consecutive singular fields into oneofs, and proto3 scalars into `optional`.
    fn make_oneofs(&mut self, mid: usize) {
        let p3 = self.m.files[self.m.msgs[mid].file].proto3;
        let n = self.m.msgs[mid].fields.len();
        let mut i = 0;
        while i < n {
            let run = {
                let fs = &self.m.msgs[mid].fields;
                let mut j = i;
                while j < n && fs[j].card == Card::Optional {
                    j += 1;
                }
                j - i
            };
            if run >= 1 && self.s.chance(1, 3) {
                let take = 1 + if run > 4 && self.s.chance(1, 4) { self.s.us(run) } else { self.s.us(run.min(4)) };
                let u = self.uniq();
                let name = match self.s.weighted(&[3, 1]) {
                    0 => format!("one_of{u}"),
                    _ => format!("OneOf_{u}"),
                };
                let oi = self.m.msgs[mid].oneofs.len();
                self.m.msgs[mid].oneofs.push(OneofDef { name, synthetic: false });
                for k in i..i + take {
                    self.m.msgs[mid].fields[k].oneof = Some(oi);
                }
                i += take;
            } else {
                i += 1;
            }
        }
        if p3 {
            for k in 0..n {
                let f = &self.m.msgs[mid].fields[k];
                if f.card == Card::Optional && f.oneof.is_none() && self.s.chance(1, 4) {
                    let name = format!("_{}", self.m.msgs[mid].fields[k].name);
                    let oi = self.m.msgs[mid].oneofs.len();
                    self.m.msgs[mid].oneofs.push(OneofDef { name, synthetic: true });
                    let f = &mut self.m.msgs[mid].fields[k];
                    f.oneof = Some(oi);
                    f.proto3_optional = true;
                }
            }
        }
    }
    fn add_ext(&mut self, file: usize) {
        let vis = self.visible_files(file);
        let targets: Vec<usize> = (0..self.m.msgs.len())
            .filter(|&m| vis.contains(&self.m.msgs[m].file) && !self.m.msgs[m].ext_ranges.is_empty())
            .collect();
        if targets.is_empty() {
            return;
        }
        let extendee = *self.s.pick(&targets);
        let r = *self.s.pick(&self.m.msgs[extendee].ext_ranges.clone());
        let mut number = r.0 + self.s.below((r.1 - r.0).min(50) as u64) as u32;
        let tries = 60;
        let mut ok = false;
        for _ in 0..tries {
            if !(19000..20000).contains(&number)
                && number < r.1
                && !self.m.exts.iter().any(|x| x.extendee == extendee && x.f.number == number)
            {
                ok = true;
                break;
            }
            number = if number + 1 >= r.1 { r.0 } else { number + 1 };
        }
        if !ok {
            return;
        }
        let parents: Vec<usize> =
            self.m.files[file].msgs.iter().copied().filter(|&m| !self.m.msgs[m].map_entry).collect();
        let parent = if !parents.is_empty() && self.s.chance(1, 3) { Some(*self.s.pick(&parents)) } else { None };
        let mut name = self.field_name();
        let p3 = self.m.files[file].proto3;
        let mut card = if self.s.chance(1, 3) { Card::Repeated } else { Card::Optional };
        let mut ty = self.pick_type(file, true);
        let mut default = None;
        let mut packed = None;
        if !p3 && self.cfg.groups && self.s.chance(1, 8) {
            let u = self.uniq();
            let gname = format!("Xg{u}");
            name = gname.to_lowercase();
            let gid = self.new_msg(file, parent, gname);
            self.group_types.insert(gid);
            ty = Ty::Group(gid);
            let n = self.s.below(3);
            for _ in 0..n {
                self.add_field(gid);
            }
        }
        if card == Card::Repeated {
            if ty.packable() && self.s.chance(1, 3) {
                packed = Some(!self.s.flip());
            }
        } else if !p3 && self.s.chance(1, 4) {
            default = self.default_for(ty);
        }
        if card == Card::Required {
            card = Card::Optional;
        }
        let full_name = self.full(file, parent, &name);
        let json_name = if self.s.flip() { Some(json_camel(&name)) } else { None };
        let id = self.m.exts.len();
        self.m.exts.push(ExtDef {
            f: FieldDef {
                name,
                number,
                card,
                ty,
                oneof: None,
                proto3_optional: false,
                packed,
                bare_options: self.s.chance(1, 8),
                deprecated: None,
                json_name,
                default,
            },
            full_name,
            file,
            parent,
            extendee,
        });
        match parent {
            Some(p) => self.m.msgs[p].exts.push(id),
            None => self.m.files[file].exts.push(id),
        }
    }
}

/// protoc's name for the entry message of map field `name`.
pub fn map_entry_name(name: &str) -> String {
    let mut out = String::new();
    let mut up = true;
    for c in name.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.push(c.to_ascii_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out + "Entry"
}
fn float_default(v: f64, repr: String) -> String {
    if v.is_nan() {
        "nan".into()
    } else if v == f64::INFINITY {
        "inf".into()
    } else if v == f64::NEG_INFINITY {
        "-inf".into()
    } else {
        repr
    }
}
/// What protoc's escapes denote (octal, and those of one letter).
fn c_unescape(t: &str) -> Vec<u8> {
    let (b, mut o, mut i) = (t.as_bytes(), vec![], 0);
    while i < b.len() {
        if b[i] != b'\\' {
            o.push(b[i]);
            i += 1;
        } else if b[i + 1].is_ascii_digit() {
            o.push(u32::from_str_radix(&t[i + 1..i + 4], 8).unwrap() as u8);
            i += 4;
        } else {
            o.push(match b[i + 1] {
                b'n' => b'\n',
                b'r' => b'\r',
                b't' => b'\t',
                c => c,
            });
            i += 2;
        }
    }
    o
}
/// CEscape as protoc does for bytes defaults.
pub fn c_escape(b: &[u8]) -> String {
    let mut o = String::new();
    for &c in b {
        match c {
            b'\n' => o.push_str("\\n"),
            b'\r' => o.push_str("\\r"),
            b'\t' => o.push_str("\\t"),
            b'"' => o.push_str("\\\""),
            b'\'' => o.push_str("\\'"),
            b'\\' => o.push_str("\\\\"),
            0x20..=0x7e => o.push(c as char),
            _ => o.push_str(&format!("\\{:03o}", c)),
        }
    }
    o
}

/// Any C-escaped spelling of the same bytes.
fn c_escape_freely(s: &mut Src, b: &[u8]) -> String {
    let mut o = String::new();
    for (i, &c) in b.iter().enumerate() {
        // what follows could be read as part of an escape
        let digit_next = b.get(i + 1).is_some_and(|n| n.is_ascii_hexdigit());
        let named = match c {
            7 => Some('a'),
            8 => Some('b'),
            9 => Some('t'),
            10 => Some('n'),
            11 => Some('v'),
            12 => Some('f'),
            13 => Some('r'),
            b'?' | b'\\' | b'\'' | b'"' => Some(c as char),
            _ => None,
        };
        match (s.below(5), named) {
            (0 | 1, Some(n)) => {
                o.push('\\');
                o.push(n);
            }
            (2, _) if !digit_next => o.push_str(&format!("\\{c:o}")),
            (3, _) if !digit_next => o.push_str(&if s.flip() { format!("\\x{c:02x}") } else { format!("\\X{c:02X}") }),
            (0..=3, None) if (0x20..0x7f).contains(&c) => o.push(c as char),
            _ => o.push_str(&format!("\\{c:03o}")),
        }
    }
    o
}

pub fn gen_model(s: &mut Src, cfg: &Cfg) -> Model {
    gen_onto(s, cfg, if cfg.wkt { (*wkt_model()).clone() } else { Model::default() }, 0)
}
/// Generates files that import all files of `m`. `tag` keeps the names of different calls apart.
pub fn gen_onto(s: &mut Src, cfg: &Cfg, mut m: Model, tag: u32) -> Model {
    let nwkt = m.files.len();
    for x in &mut m.msgs {
        if m.files[x.file].wkt {
            x.ext_ranges.clear();
        }
    }
    let group_types = m
        .msgs
        .iter()
        .flat_map(|x| &x.fields)
        .chain(m.exts.iter().map(|x| &x.f))
        .filter_map(|f| if let Ty::Group(g) = f.ty { Some(g) } else { None })
        .collect();
    let mut g = Gen { s, m, cfg: cfg.clone(), ctr: tag * 10_000, group_types };
    let nfiles = 1 + g.s.below(g.cfg.max_files) as usize;
    for i in 0..nfiles {
        let fi = g.m.files.len();
        let proto3 = if cfg.proto2_only { false } else if cfg.proto3_only { true } else { g.s.flip() };
        let package = match g.s.weighted(&[8, 4, 4, 2, 1]) {
            0 => "pkg".to_string(),
            1 => format!("pkg.sub{i}"),
            2 => String::new(),
            3 => format!("P{i}._u.v1"),
            _ => format!("pkg.sub{i}.a.b.c.d.e.f"),
        };
        let mut deps: Vec<usize> = vec![];
        let mut public = vec![];
        for d in nwkt..fi {
            if g.s.chance(2, 3) {
                if g.s.chance(1, 3) {
                    public.push(deps.len());
                }
                deps.push(d);
            }
        }
        deps.extend(0..nwkt);
        let syntax = if proto3 {
            Some("proto3".to_string())
        } else if g.s.flip() {
            Some("proto2".to_string())
        } else {
            None
        };
        let name = match g.s.weighted(&[3, 1]) {
            0 => format!("f{}.proto", i + tag as usize * 10),
            _ => format!("dir/sub_dir/f{}.proto", i + tag as usize * 10),
        };
        g.m.files.push(FileDef { name, package, proto3, syntax, deps, public, ..Default::default() });
        if g.s.chance(1, 10) {
            g.m.files[fi].java_package = Some("com.example".into());
        }
        // message and enum shells first, so that fields may refer forward
        let nm = 1 + g.s.below(g.cfg.max_msgs) as usize;
        let mut mids = vec![];
        for _ in 0..nm {
            let name = g.type_name();
            let parent = if !mids.is_empty() && g.s.chance(1, 3) { Some(*g.s.pick(&mids)) } else { None };
            mids.push(g.new_msg(fi, parent, name));
        }
        let ne = g.s.below(3);
        for _ in 0..ne {
            let parent = if g.s.flip() { Some(*g.s.pick(&mids)) } else { None };
            g.new_enum(fi, parent);
        }
        for &mid in &mids {
            if g.cfg.exts && !proto3 && g.s.chance(1, 2) {
                let n = 1 + g.s.below(2);
                for _ in 0..n {
                    let r = match g.s.weighted(&[3, 1, 1]) {
                        0 => (100, 200),
                        1 => (5000, 536_870_912),
                        _ => (3, 6),
                    };
                    if !g.m.msgs[mid].ext_ranges.contains(&r) {
                        g.m.msgs[mid].ext_ranges.push(r);
                    }
                }
            }
            if g.cfg.reserved && g.s.chance(1, 6) {
                g.m.msgs[mid].reserved.push((8, 11));
                if g.s.flip() {
                    g.m.msgs[mid].reserved.push((201, 202));
                }
                g.m.msgs[mid].reserved_names.push("res_name".into());
            }
            if g.s.chance(1, 12) {
                g.m.msgs[mid].deprecated = Some(g.s.flip());
            }
        }
        for &mid in &mids {
            let nf = if g.cfg.max_fields > 3 && g.s.chance(1, 40) { 8 + g.s.below(16) } else { g.s.below(g.cfg.max_fields + 1) };
            for _ in 0..nf {
                g.add_field(mid);
            }
            g.make_oneofs(mid);
            if g.cfg.cross_json && g.m.msgs[mid].fields.len() >= 2 && g.s.chance(1, 8) {
                let n = g.m.msgs[mid].fields.len();
                let (i, j) = (g.s.us(n), g.s.us(n));
                let u = g.uniq();
                let fs = &mut g.m.msgs[mid].fields;
                if i != j {
                    fs[i].json_name = Some(fs[j].name.clone());
                    fs[j].json_name = Some(format!("cross{u}"));
                }
            }
        }
        if cfg.exts {
            let nx = g.s.below(4);
            for _ in 0..nx {
                g.add_ext(fi);
            }
        }
        if cfg.services {
            let ns = g.s.below(3);
            for _ in 0..ns {
                let u = g.uniq();
                let name = format!("Svc{u}");
                let full_name = join(&g.m.files[fi].package, &name);
                let vis = g.visible_files(fi);
                let ms: Vec<usize> = (0..g.m.msgs.len())
                    .filter(|&i| vis.contains(&g.m.msgs[i].file) && !g.m.msgs[i].map_entry)
                    .collect();
                let n = g.s.below(4);
                let mut methods = vec![];
                for _ in 0..n {
                    let u = g.uniq();
                    methods.push(MethodDef {
                        name: format!("Method{u}"),
                        input: *g.s.pick(&ms),
                        output: *g.s.pick(&ms),
                        cs: *g.s.pick(&[None, Some(true), Some(false)]),
                        ss: *g.s.pick(&[None, Some(true), Some(false)]),
                    });
                }
                let id = g.m.services.len();
                g.m.services.push(ServiceDef { name, full_name, file: fi, methods });
                g.m.files[fi].services.push(id);
            }
        }
    }
    g.m
}
/// Messages of the generated (non well-known) files that are worth instantiating.
pub fn user_msgs(m: &Model) -> Vec<usize> {
    (0..m.msgs.len()).filter(|&i| !m.msgs[i].map_entry && !m.files[m.msgs[i].file].wkt).collect()
}
