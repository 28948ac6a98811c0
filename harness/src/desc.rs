//! Descriptor pools as flat maps.
//!
//! `expect` reads FileDescriptorProtos with an independent implementation of the protobuf rules (name
//! scoping, imports, JSON names, packing, presence, default values); `dump` reads a DescriptorPool
//! through its public API, auditing on the way that every lookup agrees with iteration.

use crate::engine::{fail, Fail};
use crate::model::json_camel;
use prost::Message as _;
use prost_reflect::*;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{DescriptorProto, EnumDescriptorProto, FieldDescriptorProto, FileDescriptorProto};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Dump = BTreeMap<String, String>;

pub fn join(scope: &str, name: &str) -> String {
    if scope.is_empty() { name.to_string() } else { format!("{scope}.{name}") }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ---- reference symbol table and name resolution ----------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sym { Msg, Enum, Ext, Other, Service }

pub struct Table<'a> {
    pub files: &'a [FileDescriptorProto],
    /// full name -> kind, defining file
    pub syms: HashMap<String, (Sym, usize)>,
    /// full name of maps' entry messages
    pub entries: BTreeSet<String>,
    /// full name of an enum -> values
    pub enums: HashMap<String, Vec<(String, i32)>>,
    /// files whose definitions file i may use
    pub vis: Vec<BTreeSet<usize>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want { Type, Message, Ext }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res {
    Ok(String, Sym),
    /// nothing visible, or a definition of the wrong kind
    Bad,
    /// protoc stops at a visible definition of the wrong kind, the library goes on outwards
    Unsure,
}

impl<'a> Table<'a> {
    pub fn new(files: &'a [FileDescriptorProto]) -> Table<'a> {
        let mut t = Table { files, syms: HashMap::new(), entries: BTreeSet::new(), enums: HashMap::new(), vis: vec![] };
        for (i, f) in files.iter().enumerate() {
            for m in &f.message_type {
                t.msg(i, f.package(), m);
            }
            for e in &f.enum_type {
                t.enum_(i, f.package(), e);
            }
            for x in &f.extension {
                t.syms.insert(join(f.package(), x.name()), (Sym::Ext, i));
            }
            for s in &f.service {
                let full = join(f.package(), s.name());
                for m in &s.method {
                    t.syms.insert(join(&full, m.name()), (Sym::Other, i));
                }
                t.syms.insert(full, (Sym::Service, i));
            }
        }
        for i in 0..files.len() {
            let mut v = BTreeSet::from([i]);
            for d in &files[i].dependency {
                t.public(d, &mut v);
            }
            t.vis.push(v);
        }
        t
    }
    /// `name` and everything it imports publicly
    fn public(&self, name: &str, out: &mut BTreeSet<usize>) {
        let mut todo = vec![name.to_string()];
        let mut seen = BTreeSet::new();
        while let Some(n) = todo.pop() {
            let Some(i) = self.files.iter().position(|f| f.name() == n) else { continue };
            if !seen.insert(i) {
                continue;
            }
            out.insert(i);
            for &p in &self.files[i].public_dependency {
                todo.push(self.files[i].dependency[p as usize].clone());
            }
        }
    }
    fn msg(&mut self, i: usize, scope: &str, m: &DescriptorProto) {
        let full = join(scope, m.name());
        for f in &m.field {
            self.syms.insert(join(&full, f.name()), (Sym::Other, i));
        }
        for f in &m.extension {
            self.syms.insert(join(&full, f.name()), (Sym::Ext, i));
        }
        for f in &m.oneof_decl {
            self.syms.insert(join(&full, f.name()), (Sym::Other, i));
        }
        for n in &m.nested_type {
            self.msg(i, &full, n);
        }
        for e in &m.enum_type {
            self.enum_(i, &full, e);
        }
        if m.options.as_ref().map_or(false, |o| o.map_entry()) {
            self.entries.insert(full.clone());
        }
        self.syms.insert(full, (Sym::Msg, i));
    }
    fn enum_(&mut self, i: usize, scope: &str, e: &EnumDescriptorProto) {
        for v in &e.value {
            self.syms.insert(join(scope, v.name()), (Sym::Other, i));
        }
        let full = join(scope, e.name());
        self.enums.insert(full.clone(), e.value.iter().map(|v| (v.name().to_string(), v.number())).collect());
        self.syms.insert(full, (Sym::Enum, i));
    }
    fn package_visible(&self, file: usize, name: &str) -> bool {
        self.vis[file].iter().any(|&i| {
            let p = self.files[i].package();
            p == name || (p.starts_with(name) && p.as_bytes().get(name.len()) == Some(&b'.'))
        })
    }
    fn visible(&self, file: usize, name: &str) -> Option<Option<Sym>> {
        match self.syms.get(name) {
            Some((k, f)) if self.vis[file].contains(f) => Some(Some(*k)),
            _ if self.package_visible(file, name) => Some(None),
            _ => None,
        }
    }
    fn accept(&self, file: usize, name: &str, want: Want) -> Res {
        match self.visible(file, name) {
            Some(Some(k))
                if match want {
                    Want::Type => k == Sym::Msg || k == Sym::Enum,
                    Want::Message => k == Sym::Msg,
                    Want::Ext => k == Sym::Ext,
                } =>
            {
                Res::Ok(name.into(), k)
            }
            _ => Res::Bad,
        }
    }
    /// What `name`, written in `file` inside the definition called `scope`, refers to.
    pub fn resolve(&self, file: usize, scope: &str, name: &str, want: Want) -> Res {
        if let Some(abs) = name.strip_prefix('.') {
            return self.accept(file, abs, want);
        }
        let first = name.split('.').next().unwrap();
        let mut unsure = false;
        let mut sc = scope;
        loop {
            sc = match sc.rfind('.') {
                Some(p) => &sc[..p],
                None => {
                    let r = self.accept(file, name, want);
                    return if unsure { Res::Unsure } else { r };
                }
            };
            match self.visible(file, &join(sc, first)) {
                None => {}
                Some(k) if first.len() < name.len() => {
                    if matches!(k, None | Some(Sym::Msg) | Some(Sym::Enum) | Some(Sym::Service)) {
                        let r = self.accept(file, &join(sc, name), want);
                        return if unsure { Res::Unsure } else { r };
                    }
                }
                Some(Some(k)) => {
                    let r = self.accept(file, &join(sc, name), want);
                    if r != Res::Bad {
                        return if unsure { Res::Unsure } else { r };
                    }
                    // not a type: protoc goes on in type lookups, and stops in others
                    let is_type = matches!(k, Sym::Msg | Sym::Enum);
                    if want != Want::Type || is_type {
                        unsure = true;
                    }
                }
                Some(None) => {
                    if want != Want::Type {
                        unsure = true;
                    }
                }
            }
        }
    }
}

// ---- expectation -----------------------------------------------------------------------------

pub fn unescape(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            o.push(b[i]);
            i += 1;
            continue;
        }
        i += 1;
        match *b.get(i)? {
            c @ b'0'..=b'7' => {
                let mut v = (c - b'0') as u32;
                let mut n = 1;
                while n < 3 && matches!(b.get(i + 1), Some(b'0'..=b'7')) {
                    i += 1;
                    v = v * 8 + (b[i] - b'0') as u32;
                    n += 1;
                }
                o.push(u8::try_from(v).ok()?);
            }
            b'x' | b'X' => {
                let h = s.get(i + 1..i + 3)?;
                if !h.bytes().all(|c| c.is_ascii_hexdigit()) {
                    return None;
                }
                o.push(u8::from_str_radix(h, 16).ok()?);
                i += 2;
            }
            c => {
                let k = b"abfnrtv\\?'\"".iter().position(|&x| x == c)?;
                o.push(b"\x07\x08\x0c\n\r\t\x0b\\?'\""[k]);
            }
        }
        i += 1;
    }
    Some(o)
}

pub fn type_name_of(t: Type) -> &'static str {
    match t {
        Type::Double => "double",
        Type::Float => "float",
        Type::Int64 => "int64",
        Type::Uint64 => "uint64",
        Type::Int32 => "int32",
        Type::Fixed64 => "fixed64",
        Type::Fixed32 => "fixed32",
        Type::Bool => "bool",
        Type::String => "string",
        Type::Group => "group",
        Type::Message => "message",
        Type::Bytes => "bytes",
        Type::Uint32 => "uint32",
        Type::Enum => "enum",
        Type::Sfixed32 => "sfixed32",
        Type::Sfixed64 => "sfixed64",
        Type::Sint32 => "sint32",
        Type::Sint64 => "sint64",
    }
}
fn zero_text(t: Type) -> String {
    match t {
        Type::Double => "f64:0".into(),
        Type::Float => "f32:0".into(),
        Type::Int32 | Type::Sint32 | Type::Sfixed32 => "i32:0".into(),
        Type::Int64 | Type::Sint64 | Type::Sfixed64 => "i64:0".into(),
        Type::Uint32 | Type::Fixed32 => "u32:0".into(),
        Type::Uint64 | Type::Fixed64 => "u64:0".into(),
        Type::Bool => "bool:false".into(),
        Type::String => "str:\"\"".into(),
        Type::Bytes => "bytes:".into(),
        Type::Group | Type::Message | Type::Enum => String::new(),
    }
}
/// None if the text is no value of the type
pub fn default_text(t: Type, s: &str) -> Option<String> {
    Some(match t {
        Type::Double => format!("f64:{:x}", canon64(s.parse().ok()?)),
        Type::Float => format!("f32:{:x}", canon32(s.parse().ok()?)),
        Type::Int32 | Type::Sint32 | Type::Sfixed32 => format!("i32:{}", s.parse::<i32>().ok()?),
        Type::Int64 | Type::Sint64 | Type::Sfixed64 => format!("i64:{}", s.parse::<i64>().ok()?),
        Type::Uint32 | Type::Fixed32 => format!("u32:{}", s.parse::<u32>().ok()?),
        Type::Uint64 | Type::Fixed64 => format!("u64:{}", s.parse::<u64>().ok()?),
        Type::Bool => format!("bool:{}", s.parse::<bool>().ok()?),
        Type::String => format!("str:{s:?}"),
        Type::Bytes => format!("bytes:{}", hex(&unescape(s)?)),
        Type::Group | Type::Message | Type::Enum => return None,
    })
}
fn canon64(v: f64) -> u64 {
    if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() }
}
fn canon32(v: f32) -> u32 {
    if v.is_nan() { f32::NAN.to_bits() } else { v.to_bits() }
}

/// The same file with everything the rules imply written out.
pub struct Norm { pub files: Vec<FileDescriptorProto> }

struct Exp<'a> {
    t: Table<'a>,
    out: Dump,
    norm: Vec<FileDescriptorProto>,
    /// extendee -> (number, full name) of its extensions
    exts: BTreeMap<String, BTreeSet<String>>,
    /// describes why the set is not valid
    bad: Option<String>,
    unsure: bool,
}

fn set<T: std::fmt::Debug + Ord>(x: impl IntoIterator<Item = T>) -> String {
    let mut v: Vec<T> = x.into_iter().collect();
    v.sort();
    format!("{v:?}")
}

impl Exp<'_> {
    fn put(&mut self, who: &str, attr: &str, v: impl Into<String>) {
        self.out.insert(format!("{who} / {attr}"), v.into());
    }
    fn resolve(&mut self, file: usize, scope: &str, name: &str, want: Want) -> Option<(String, Sym)> {
        match self.t.resolve(file, scope, name, want) {
            Res::Ok(n, k) => Some((n, k)),
            Res::Bad => {
                self.bad = Some(format!("{name:?} in {scope} does not name a visible {want:?}"));
                None
            }
            Res::Unsure => {
                self.unsure = true;
                None
            }
        }
    }
    /// field or extension
    fn field(&mut self, who: &str, file: usize, full: &str, path: &[i32], f: &FieldDescriptorProto, ext: bool) -> FieldDescriptorProto {
        let mut n = f.clone();
        let syntax3 = self.t.files[file].syntax() == "proto3";
        let mut ty = f.r#type();
        if !f.type_name().is_empty() {
            let Some((name, k)) = self.resolve(file, full, f.type_name(), Want::Type) else { return n };
            ty = match k {
                Sym::Enum => Type::Enum,
                _ if ty == Type::Group => Type::Group,
                _ => Type::Message,
            };
            n.type_name = Some(format!(".{name}"));
        }
        n.r#type = Some(ty as i32);
        n.label = Some(f.label() as i32);
        let target = n.type_name().trim_start_matches('.').to_string();
        let kind = if target.is_empty() { type_name_of(ty).to_string() } else { format!("{} {target}", if ty == Type::Enum { "enum" } else { "message" }) };
        let rep = f.label() == Label::Repeated;
        let msg = matches!(ty, Type::Message | Type::Group);
        let map = rep && ty == Type::Message && self.t.entries.contains(&target);
        let packable = !msg && !matches!(ty, Type::String | Type::Bytes);
        let packed = f.options.as_ref().and_then(|o| o.packed).unwrap_or(syntax3);
        self.put(who, "name", f.name());
        self.put(who, "full", full);
        self.put(who, "path", format!("{path:?}"));
        self.put(who, "number", f.number().to_string());
        self.put(who, "kind", kind);
        self.put(who, "card", format!("{:?}", f.label()));
        self.put(who, "list", (rep && !map).to_string());
        self.put(who, "map", map.to_string());
        self.put(who, "group", (ty == Type::Group).to_string());
        self.put(who, "packed", (rep && packable && packed).to_string());
        let presence = if ext {
            !rep
        } else {
            f.proto3_optional() || f.oneof_index.is_some() || (!rep && (msg || !syntax3))
        };
        self.put(who, "presence", presence.to_string());
        let json = f.json_name.clone().unwrap_or_else(|| json_camel(f.name()));
        self.put(who, "json", if ext { format!("[{full}]") } else { json.clone() });
        n.json_name = Some(json);
        let d = if map {
            "map".into()
        } else if rep {
            "list".into()
        } else if msg {
            format!("msg:{target}")
        } else if ty == Type::Enum {
            let vs = &self.t.enums[&target];
            let v = match &f.default_value {
                None => Some(vs[0].1),
                Some(d) => vs.iter().find(|v| &v.0 == d).map(|v| v.1),
            };
            match v {
                Some(v) => format!("enum:{v}"),
                None => {
                    self.bad = Some(format!("default {:?} is no value of {target}", f.default_value));
                    return n;
                }
            }
        } else {
            match &f.default_value {
                None => zero_text(ty),
                Some(d) => match default_text(ty, d) {
                    Some(d) => d,
                    None => {
                        self.bad = Some(format!("default {d:?} is no {ty:?}"));
                        return n;
                    }
                },
            }
        };
        self.put(who, "default", d);
        self.put(who, "options", hex(&f.options.as_ref().map_or(vec![], |o| o.encode_to_vec())));
        n
    }
    fn ext(&mut self, file: usize, scope: &str, parent: Option<&str>, path: &[i32], f: &FieldDescriptorProto) -> FieldDescriptorProto {
        let full = join(scope, f.name());
        let who = format!("ext {full}");
        let mut n = self.field(&who, file, &full, path, f, true);
        if let Some((e, _)) = self.resolve(file, &full, f.extendee(), Want::Message) {
            self.put(&who, "extendee", e.clone());
            self.put(&who, "file", self.t.files[file].name());
            self.put(&who, "package", self.t.files[file].package());
            self.put(&who, "parent", parent.unwrap_or("-"));
            self.exts.entry(e.clone()).or_default().insert(full);
            n.extendee = Some(format!(".{e}"));
        }
        n
    }
    fn enum_(&mut self, file: usize, scope: &str, parent: Option<&str>, path: &[i32], e: &EnumDescriptorProto) {
        let full = join(scope, e.name());
        let who = format!("enum {full}");
        self.put(&who, "name", e.name());
        self.put(&who, "path", format!("{path:?}"));
        self.put(&who, "file", self.t.files[file].name());
        self.put(&who, "package", self.t.files[file].package());
        self.put(&who, "parent", parent.unwrap_or("-"));
        self.put(&who, "values", set(e.value.iter().map(|v| (v.name(), v.number()))));
        self.put(&who, "default", e.value[0].name());
        self.put(&who, "reserved", set(e.reserved_range.iter().map(|r| (r.start(), r.end()))));
        self.put(&who, "reserved names", set(&e.reserved_name));
        self.put(&who, "options", hex(&e.options.as_ref().map_or(vec![], |o| o.encode_to_vec())));
        for (i, v) in e.value.iter().enumerate() {
            let who = format!("value {full}:{}", v.name());
            self.put(&who, "full", join(scope, v.name()));
            self.put(&who, "number", v.number().to_string());
            self.put(&who, "path", format!("{:?}", [path, &[2, i as i32]].concat()));
            self.put(&who, "options", hex(&v.options.as_ref().map_or(vec![], |o| o.encode_to_vec())));
        }
    }
    fn msg(&mut self, file: usize, scope: &str, parent: Option<&str>, path: &[i32], m: &DescriptorProto) -> DescriptorProto {
        let mut n = m.clone();
        let full = join(scope, m.name());
        let who = format!("msg {full}");
        let at = |a: i32, i: usize| [path, &[a, i as i32]].concat();
        self.put(&who, "name", m.name());
        self.put(&who, "path", format!("{path:?}"));
        self.put(&who, "file", self.t.files[file].name());
        self.put(&who, "package", self.t.files[file].package());
        self.put(&who, "parent", parent.unwrap_or("-"));
        let entry = self.t.entries.contains(&full);
        self.put(&who, "map entry", entry.to_string());
        self.put(&who, "fields", set(m.field.iter().map(|f| (f.number(), f.name()))));
        self.put(&who, "oneofs", format!("{:?}", m.oneof_decl.iter().map(|o| o.name()).collect::<Vec<_>>()));
        self.put(&who, "messages", set(m.nested_type.iter().map(|o| o.name())));
        self.put(&who, "enums", set(m.enum_type.iter().map(|o| o.name())));
        self.put(&who, "exts", set(m.extension.iter().map(|o| o.name())));
        self.put(&who, "reserved", set(m.reserved_range.iter().map(|r| (r.start(), r.end()))));
        self.put(&who, "reserved names", set(&m.reserved_name));
        self.put(&who, "ranges", set(m.extension_range.iter().map(|r| (r.start(), r.end()))));
        self.put(&who, "options", hex(&m.options.as_ref().map_or(vec![], |o| o.encode_to_vec())));
        for (i, f) in m.field.iter().enumerate() {
            let who = format!("field {full}:{}", f.name());
            n.field[i] = self.field(&who, file, &join(&full, f.name()), &at(2, i), f, false);
            let o = f.oneof_index.map(|o| m.oneof_decl[o as usize].name()).unwrap_or("-");
            self.put(&who, "oneof", o);
        }
        for (i, o) in m.oneof_decl.iter().enumerate() {
            let who = format!("oneof {full}:{}", o.name());
            let fs: Vec<&FieldDescriptorProto> = m.field.iter().filter(|f| f.oneof_index == Some(i as i32)).collect();
            self.put(&who, "full", join(&full, o.name()));
            self.put(&who, "path", format!("{:?}", at(8, i)));
            self.put(&who, "fields", set(fs.iter().map(|f| f.name())));
            self.put(&who, "synthetic", (fs.len() == 1 && fs[0].proto3_optional()).to_string());
            self.put(&who, "options", hex(&o.options.as_ref().map_or(vec![], |o| o.encode_to_vec())));
        }
        for (i, x) in m.extension.iter().enumerate() {
            n.extension[i] = self.ext(file, &full, Some(&full), &at(6, i), x);
        }
        for (i, x) in m.nested_type.iter().enumerate() {
            n.nested_type[i] = self.msg(file, &full, Some(&full), &at(3, i), x);
        }
        for (i, x) in m.enum_type.iter().enumerate() {
            self.enum_(file, &full, Some(&full), &at(4, i), x);
        }
        n
    }
    fn file(&mut self, i: usize) {
        let f = &self.t.files[i];
        let mut n = f.clone();
        let who = format!("file {}", f.name());
        self.put(&who, "package", f.package());
        self.put(&who, "syntax", if f.syntax() == "proto3" { "Proto3" } else { "Proto2" });
        self.put(&who, "deps", format!("{:?}", f.dependency));
        self.put(&who, "public", format!("{:?}", f.public_dependency.iter().map(|&p| &f.dependency[p as usize]).collect::<Vec<_>>()));
        self.put(&who, "messages", set(f.message_type.iter().map(|m| m.name())));
        self.put(&who, "enums", set(f.enum_type.iter().map(|m| m.name())));
        self.put(&who, "exts", set(f.extension.iter().map(|m| m.name())));
        self.put(&who, "services", set(f.service.iter().map(|m| m.name())));
        self.put(&who, "options", hex(&f.options.as_ref().map_or(vec![], |o| o.encode_to_vec())));
        for (j, m) in f.message_type.iter().enumerate() {
            n.message_type[j] = self.msg(i, f.package(), None, &[4, j as i32], m);
        }
        for (j, e) in f.enum_type.iter().enumerate() {
            self.enum_(i, f.package(), None, &[5, j as i32], e);
        }
        for (j, x) in f.extension.iter().enumerate() {
            n.extension[j] = self.ext(i, f.package(), None, &[7, j as i32], x);
        }
        for (j, s) in f.service.iter().enumerate() {
            let full = join(f.package(), s.name());
            let who = format!("service {full}");
            self.put(&who, "name", s.name());
            self.put(&who, "path", format!("{:?}", [6, j]));
            self.put(&who, "file", f.name());
            self.put(&who, "package", f.package());
            self.put(&who, "methods", set(s.method.iter().map(|m| m.name())));
            self.put(&who, "options", hex(&s.options.as_ref().map_or(vec![], |o| o.encode_to_vec())));
            for (k, m) in s.method.iter().enumerate() {
                let mfull = join(&full, m.name());
                let who = format!("method {mfull}");
                self.put(&who, "name", m.name());
                self.put(&who, "path", format!("{:?}", [6, j, 2, k]));
                self.put(&who, "client", m.client_streaming().to_string());
                self.put(&who, "server", m.server_streaming().to_string());
                self.put(&who, "options", hex(&m.options.as_ref().map_or(vec![], |o| o.encode_to_vec())));
                if let Some((x, _)) = self.resolve(i, &mfull, m.input_type(), Want::Message) {
                    n.service[j].method[k].input_type = Some(format!(".{x}"));
                    self.put(&who, "input", x);
                }
                if let Some((x, _)) = self.resolve(i, &mfull, m.output_type(), Want::Message) {
                    n.service[j].method[k].output_type = Some(format!(".{x}"));
                    self.put(&who, "output", x);
                }
            }
        }
        self.norm.push(n);
    }
}

pub enum Expected {
    Valid(Dump, Vec<FileDescriptorProto>),
    Invalid(String),
    Unsure,
}

/// What a pool holding exactly these files must say, or why they are no valid set (as far as names, types
/// and defaults go; other faults are not looked for).
pub fn expect(files: &[FileDescriptorProto]) -> Expected {
    let mut e = Exp { t: Table::new(files), out: Dump::new(), norm: vec![], exts: BTreeMap::new(), bad: None, unsure: false };
    for i in 0..files.len() {
        e.file(i);
    }
    if let Some(b) = e.bad {
        return Expected::Invalid(b);
    }
    if e.unsure {
        return Expected::Unsure;
    }
    let names: Vec<String> = e.t.syms.iter().filter(|(_, (k, _))| *k == Sym::Msg).map(|(n, _)| n.clone()).collect();
    for n in names {
        let v = set(e.exts.get(&n).cloned().unwrap_or_default());
        e.out.insert(format!("msg {n} / extended by"), v);
    }
    Expected::Valid(e.out, e.norm)
}

// ---- the pool as seen through its API --------------------------------------------------------

macro_rules! aud {
    ($c:expr, $($t:tt)*) => { if !$c { return fail("lookup", format!($($t)*)); } };
}

fn kind_text(k: &Kind) -> String {
    match k {
        Kind::Message(m) => format!("message {}", m.full_name()),
        Kind::Enum(e) => format!("enum {}", e.full_name()),
        Kind::Double => "double".into(),
        Kind::Float => "float".into(),
        Kind::Int32 => "int32".into(),
        Kind::Int64 => "int64".into(),
        Kind::Uint32 => "uint32".into(),
        Kind::Uint64 => "uint64".into(),
        Kind::Sint32 => "sint32".into(),
        Kind::Sint64 => "sint64".into(),
        Kind::Fixed32 => "fixed32".into(),
        Kind::Fixed64 => "fixed64".into(),
        Kind::Sfixed32 => "sfixed32".into(),
        Kind::Sfixed64 => "sfixed64".into(),
        Kind::Bool => "bool".into(),
        Kind::String => "string".into(),
        Kind::Bytes => "bytes".into(),
    }
}
fn value_text(v: &Value) -> String {
    match v {
        Value::Bool(b) => format!("bool:{b}"),
        Value::I32(b) => format!("i32:{b}"),
        Value::I64(b) => format!("i64:{b}"),
        Value::U32(b) => format!("u32:{b}"),
        Value::U64(b) => format!("u64:{b}"),
        Value::F32(b) => format!("f32:{:x}", canon32(*b)),
        Value::F64(b) => format!("f64:{:x}", canon64(*b)),
        Value::String(b) => format!("str:{b:?}"),
        Value::Bytes(b) => format!("bytes:{}", hex(b)),
        Value::EnumNumber(b) => format!("enum:{b}"),
        Value::Message(m) => format!("msg:{}{}", m.descriptor().full_name(), if m.encoded_len() == 0 { "" } else { "!" }),
        Value::List(l) => format!("list{}", if l.is_empty() { "" } else { "!" }),
        Value::Map(l) => format!("map{}", if l.is_empty() { "" } else { "!" }),
    }
}
fn options_text(o: DynamicMessage, want: &str) -> Result<String, Fail> {
    aud!(o.descriptor().full_name() == want, "options() is a {}", o.descriptor().full_name());
    Ok(hex(&o.encode_to_vec()))
}

struct Dmp { out: Dump, debug: bool }

impl Dmp {
    fn put(&mut self, who: &str, attr: &str, v: impl Into<String>) {
        self.out.insert(format!("{who} / {attr}"), v.into());
    }
    fn once(&mut self, who: &str) -> Result<(), Fail> {
        aud!(!self.out.contains_key(&format!("{who} / path")), "{who} is iterated twice");
        Ok(())
    }
    fn dbg(&self, d: &dyn std::fmt::Debug, name: &str) -> Result<(), Fail> {
        if self.debug {
            let t = format!("{d:?}");
            aud!(t.contains(name) || t.contains(&*format!("{name:?}")), "the Debug output {t:?} does not mention {name}");
        }
        Ok(())
    }
    fn field(&mut self, m: &MessageDescriptor, f: &FieldDescriptor) -> Result<(), Fail> {
        let who = format!("field {}:{}", m.full_name(), f.name());
        self.once(&who)?;
        aud!(f.parent_message() == m, "{who}: parent_message");
        aud!(f.parent_file() == m.parent_file(), "{who}: parent_file");
        aud!(f.parent_pool() == m.parent_pool(), "{who}: parent_pool");
        aud!(m.get_field(f.number()).as_ref() == Some(f), "{who}: get_field");
        aud!(m.get_field_by_name(f.name()).as_ref() == Some(f), "{who}: get_field_by_name");
        let dup: Vec<FieldDescriptor> = m.fields().filter(|g| g.json_name() == f.json_name()).collect();
        match m.get_field_by_json_name(f.json_name()) {
            None => return fail("lookup", format!("{who}: get_field_by_json_name finds nothing")),
            Some(g) => {
                aud!(dup.contains(&g), "{who}: get_field_by_json_name({:?}) finds {}", f.json_name(), g.name());
                if f.json_name() != json_camel(f.name()) {
                    aud!(&g == f, "{who}: get_field_by_json_name({:?}) finds {} and not the field with that custom name", f.json_name(), g.name());
                }
            }
        }
        let absent = format!("{}x_", f.name());
        if m.fields().all(|g| g.name() != absent) {
            aud!(m.get_field_by_name(&absent).is_none(), "{who}: get_field_by_name({absent:?})");
        }
        if m.fields().all(|g| g.json_name() != f.name()) {
            aud!(m.get_field_by_json_name(f.name()).is_none(), "{who}: get_field_by_json_name({:?})", f.name());
        }
        if m.fields().all(|g| g.name() != f.json_name()) {
            aud!(m.get_field_by_name(f.json_name()).is_none(), "{who}: get_field_by_name({:?})", f.json_name());
        }
        for n in [f.number() - 1, f.number() + 1] {
            if m.fields().all(|g| g.number() != n) {
                aud!(m.get_field(n).is_none(), "{who}: get_field({n})");
            }
        }
        aud!(m.get_field_by_name(f.full_name()).is_none(), "{who}: get_field_by_name of a full name");
        let raw = f.field_descriptor_proto();
        aud!(raw.name() == f.name() && raw.number() as u32 == f.number(), "{who}: field_descriptor_proto is {raw:?}");
        aud!(f.is_required() == (f.cardinality() == Cardinality::Required), "{who}: is_required");
        self.put(&who, "name", f.name());
        self.put(&who, "full", f.full_name());
        self.put(&who, "path", format!("{:?}", f.path()));
        self.put(&who, "number", f.number().to_string());
        self.put(&who, "kind", kind_text(&f.kind()));
        self.put(&who, "card", format!("{:?}", f.cardinality()));
        self.put(&who, "list", f.is_list().to_string());
        self.put(&who, "map", f.is_map().to_string());
        self.put(&who, "group", f.is_group().to_string());
        self.put(&who, "packed", f.is_packed().to_string());
        self.put(&who, "presence", f.supports_presence().to_string());
        self.put(&who, "json", f.json_name());
        self.put(&who, "default", value_text(&f.default_value()));
        self.put(&who, "oneof", f.containing_oneof().map_or("-".into(), |o| o.name().to_string()));
        let o = options_text(f.options(), "google.protobuf.FieldOptions")?;
        self.put(&who, "options", o);
        self.kind(&who, &f.kind())?;
        self.dbg(f, f.name())
    }
    fn kind(&self, who: &str, k: &Kind) -> Result<(), Fail> {
        aud!(k.as_message().is_some() == matches!(k, Kind::Message(_)), "{who}: as_message");
        aud!(k.as_enum().is_some() == matches!(k, Kind::Enum(_)), "{who}: as_enum");
        Ok(())
    }
    fn ext(&mut self, x: &ExtensionDescriptor) -> Result<(), Fail> {
        let who = format!("ext {}", x.full_name());
        self.once(&who)?;
        let pool = x.parent_pool().clone();
        aud!(pool.get_extension_by_name(x.full_name()).as_ref() == Some(x), "{who}: get_extension_by_name");
        aud!(pool.get_message_by_name(x.full_name()).is_none(), "{who}: get_message_by_name");
        aud!(pool.get_enum_by_name(x.full_name()).is_none(), "{who}: get_enum_by_name");
        let m = x.containing_message();
        aud!(m.get_extension(x.number()).as_ref() == Some(x), "{who}: get_extension");
        aud!(m.get_extension_by_full_name(x.full_name()).as_ref() == Some(x), "{who}: get_extension_by_full_name");
        aud!(m.get_extension_by_json_name(x.json_name()).as_ref() == Some(x), "{who}: get_extension_by_json_name");
        aud!(m.get_field(x.number()).is_none(), "{who}: get_field finds an extension");
        aud!(m.get_extension_by_full_name(x.json_name()).is_none(), "{who}: by full name with a JSON name");
        aud!(m.get_extension_by_json_name(x.full_name()).is_none(), "{who}: by JSON name with a full name");
        if m.extensions().all(|y| y.number() != x.number() + 1) {
            aud!(m.get_extension(x.number() + 1).is_none(), "{who}: get_extension({})", x.number() + 1);
        }
        let raw = x.field_descriptor_proto();
        aud!(raw.name() == x.name() && raw.number() as u32 == x.number(), "{who}: field_descriptor_proto is {raw:?}");
        aud!(x.parent_file_descriptor_proto() == x.parent_file().file_descriptor_proto(), "{who}: parent_file_descriptor_proto");
        self.put(&who, "name", x.name());
        self.put(&who, "full", x.full_name());
        self.put(&who, "path", format!("{:?}", x.path()));
        self.put(&who, "number", x.number().to_string());
        self.put(&who, "kind", kind_text(&x.kind()));
        self.put(&who, "card", format!("{:?}", x.cardinality()));
        self.put(&who, "list", x.is_list().to_string());
        self.put(&who, "map", x.is_map().to_string());
        self.put(&who, "group", x.is_group().to_string());
        self.put(&who, "packed", x.is_packed().to_string());
        self.put(&who, "presence", x.supports_presence().to_string());
        self.put(&who, "json", x.json_name());
        self.put(&who, "default", value_text(&x.default_value()));
        self.put(&who, "extendee", m.full_name());
        self.put(&who, "file", x.parent_file().name());
        self.put(&who, "package", x.package_name());
        self.put(&who, "parent", x.parent_message().map_or("-".into(), |m| m.full_name().to_string()));
        let o = options_text(x.options(), "google.protobuf.FieldOptions")?;
        self.put(&who, "options", o);
        self.dbg(x, x.full_name())
    }
    fn enum_(&mut self, e: &EnumDescriptor) -> Result<(), Fail> {
        let full = e.full_name();
        let who = format!("enum {full}");
        self.once(&who)?;
        let pool = e.parent_pool();
        aud!(pool.get_enum_by_name(full).as_ref() == Some(e), "{who}: get_enum_by_name");
        aud!(pool.get_message_by_name(full).is_none(), "{who}: get_message_by_name");
        aud!(pool.get_extension_by_name(full).is_none(), "{who}: get_extension_by_name");
        aud!(pool.get_service_by_name(full).is_none(), "{who}: get_service_by_name");
        aud!(e.enum_descriptor_proto().name() == e.name(), "{who}: enum_descriptor_proto");
        aud!(e.parent_file_descriptor_proto() == e.parent_file().file_descriptor_proto(), "{who}: parent_file_descriptor_proto");
        self.put(&who, "name", e.name());
        self.put(&who, "path", format!("{:?}", e.path()));
        self.put(&who, "file", e.parent_file().name());
        self.put(&who, "package", e.package_name());
        self.put(&who, "parent", e.parent_message().map_or("-".into(), |m| m.full_name().to_string()));
        aud!(e.values().len() == e.values().count(), "{who}: values().len()");
        let vs: Vec<EnumValueDescriptor> = e.values().collect();
        self.put(&who, "values", set(vs.iter().map(|v| (v.name(), v.number()))));
        self.put(&who, "default", e.default_value().name());
        self.put(&who, "reserved", set(e.reserved_ranges().map(|r| (*r.start(), *r.end()))));
        self.put(&who, "reserved names", set(e.reserved_names()));
        let o = options_text(e.options(), "google.protobuf.EnumOptions")?;
        self.put(&who, "options", o);
        for v in &vs {
            let who = format!("value {full}:{}", v.name());
            self.once(&who)?;
            aud!(v.parent_enum() == e && v.parent_file() == e.parent_file(), "{who}: parents");
            aud!(v.parent_pool() == pool, "{who}: pool");
            aud!(e.get_value_by_name(v.name()).as_ref() == Some(v), "{who}: get_value_by_name");
            match e.get_value(v.number()) {
                Some(g) => aud!(vs.contains(&g) && g.number() == v.number(), "{who}: get_value"),
                None => return fail("lookup", format!("{who}: get_value finds nothing")),
            }
            for n in [v.number().wrapping_sub(1), v.number().wrapping_add(1)] {
                if vs.iter().all(|w| w.number() != n) {
                    aud!(e.get_value(n).is_none(), "{who}: get_value({n})");
                }
            }
            aud!(v.full_name() == v.name() || e.get_value_by_name(v.full_name()).is_none(), "{who}: get_value_by_name of a full name");
            let raw = v.enum_value_descriptor_proto();
            aud!(raw.name() == v.name() && raw.number() == v.number(), "{who}: enum_value_descriptor_proto");
            self.put(&who, "full", v.full_name());
            self.put(&who, "number", v.number().to_string());
            self.put(&who, "path", format!("{:?}", v.path()));
            let o = options_text(v.options(), "google.protobuf.EnumValueOptions")?;
            self.put(&who, "options", o);
            self.dbg(v, v.name())?;
        }
        self.dbg(e, full)
    }
    fn msg(&mut self, m: &MessageDescriptor) -> Result<(), Fail> {
        let full = m.full_name();
        let who = format!("msg {full}");
        self.once(&who)?;
        let pool = m.parent_pool();
        aud!(pool.get_message_by_name(full).as_ref() == Some(m), "{who}: get_message_by_name");
        aud!(pool.get_enum_by_name(full).is_none(), "{who}: get_enum_by_name");
        aud!(pool.get_extension_by_name(full).is_none(), "{who}: get_extension_by_name");
        aud!(pool.get_service_by_name(full).is_none(), "{who}: get_service_by_name");
        aud!(m.descriptor_proto().name() == m.name(), "{who}: descriptor_proto");
        aud!(m.parent_file_descriptor_proto() == m.parent_file().file_descriptor_proto(), "{who}: parent_file_descriptor_proto");
        self.put(&who, "name", m.name());
        self.put(&who, "path", format!("{:?}", m.path()));
        self.put(&who, "file", m.parent_file().name());
        self.put(&who, "package", m.package_name());
        self.put(&who, "parent", m.parent_message().map_or("-".into(), |m| m.full_name().to_string()));
        self.put(&who, "map entry", m.is_map_entry().to_string());
        aud!(m.fields().len() == m.fields().count(), "{who}: fields().len()");
        self.put(&who, "fields", set(m.fields().map(|f| (f.number(), f.name().to_string()))));
        self.put(&who, "oneofs", format!("{:?}", m.oneofs().map(|o| o.name().to_string()).collect::<Vec<_>>()));
        self.put(&who, "messages", set(m.child_messages().map(|o| o.name().to_string())));
        self.put(&who, "enums", set(m.child_enums().map(|o| o.name().to_string())));
        self.put(&who, "exts", set(m.child_extensions().map(|o| o.name().to_string())));
        self.put(&who, "reserved", set(m.reserved_ranges().map(|r| (r.start, r.end))));
        self.put(&who, "reserved names", set(m.reserved_names()));
        self.put(&who, "ranges", set(m.extension_ranges().map(|r| (r.start, r.end))));
        self.put(&who, "extended by", set(m.extensions().map(|x| x.full_name().to_string())));
        let o = options_text(m.options(), "google.protobuf.MessageOptions")?;
        self.put(&who, "options", o);
        for x in m.extensions() {
            aud!(&x.containing_message() == m, "{who}: extensions() has {}", x.full_name());
        }
        for f in m.fields() {
            self.field(m, &f)?;
        }
        if m.is_map_entry() && m.get_field(1).is_some() && m.get_field(2).is_some() {
            aud!(Some(m.map_entry_key_field()) == m.get_field(1), "{who}: map_entry_key_field");
            aud!(Some(m.map_entry_value_field()) == m.get_field(2), "{who}: map_entry_value_field");
        }
        for (i, o) in m.oneofs().enumerate() {
            let who = format!("oneof {full}:{}", o.name());
            self.once(&who)?;
            aud!(o.parent_message() == m && o.parent_file() == m.parent_file(), "{who}: parents");
            aud!(o.parent_pool() == pool, "{who}: pool");
            aud!(o.oneof_descriptor_proto().name() == o.name(), "{who}: oneof_descriptor_proto");
            aud!(m.descriptor_proto().oneof_decl[i].name() == o.name(), "{who}: order");
            self.put(&who, "full", o.full_name());
            self.put(&who, "path", format!("{:?}", o.path()));
            self.put(&who, "fields", set(o.fields().map(|f| f.name().to_string())));
            self.put(&who, "synthetic", o.is_synthetic().to_string());
            let t = options_text(o.options(), "google.protobuf.OneofOptions")?;
            self.put(&who, "options", t);
            for f in o.fields() {
                aud!(f.containing_oneof().as_ref() == Some(&o), "{who}: {} is in another oneof", f.name());
            }
            self.dbg(&o, o.name())?;
        }
        for c in m.child_messages() {
            aud!(c.parent_message().as_ref() == Some(m), "{who}: child {}", c.full_name());
        }
        for c in m.child_enums() {
            aud!(c.parent_message().as_ref() == Some(m), "{who}: child {}", c.full_name());
        }
        for c in m.child_extensions() {
            aud!(c.parent_message().as_ref() == Some(m), "{who}: child {}", c.full_name());
        }
        self.dbg(m, full)
    }
}

/// Reads a pool through its whole API.
pub fn dump(pool: &DescriptorPool, debug: bool) -> Result<Dump, Fail> {
    let mut d = Dmp { out: Dump::new(), debug };
    aud!(pool.files().len() == pool.files().count(), "files().len()");
    aud!(pool.files().len() == pool.file_descriptor_protos().len(), "file_descriptor_protos().len()");
    let protos: Vec<&FileDescriptorProto> = pool.file_descriptor_protos().collect();
    for (i, f) in pool.files().enumerate() {
        let who = format!("file {}", f.name());
        aud!(!d.out.contains_key(&format!("{who} / package")), "{who} is iterated twice");
        aud!(f.index() == i, "{who}: index {} at {i}", f.index());
        aud!(FileDescriptor::new(pool.clone(), i) == f, "{who}: FileDescriptor::new");
        aud!(pool.get_file_by_name(f.name()).as_ref() == Some(&f), "{who}: get_file_by_name");
        aud!(f.parent_pool() == pool, "{who}: pool");
        aud!(f.file_descriptor_proto() == protos[i] && protos[i].name() == f.name(), "{who}: file_descriptor_proto");
        let absent = format!("{}x", f.name());
        if protos.iter().all(|p| p.name() != absent) {
            aud!(pool.get_file_by_name(&absent).is_none(), "get_file_by_name({absent:?})");
        }
        d.put(&who, "package", f.package_name());
        d.put(&who, "syntax", if f.syntax() == Syntax::Proto3 { "Proto3" } else { "Proto2" });
        d.put(&who, "deps", format!("{:?}", f.dependencies().map(|f| f.name().to_string()).collect::<Vec<_>>()));
        d.put(&who, "public", format!("{:?}", f.public_dependencies().map(|f| f.name().to_string()).collect::<Vec<_>>()));
        d.put(&who, "messages", set(f.messages().map(|m| m.name().to_string())));
        d.put(&who, "enums", set(f.enums().map(|m| m.name().to_string())));
        d.put(&who, "exts", set(f.extensions().map(|m| m.name().to_string())));
        d.put(&who, "services", set(f.services().map(|m| m.name().to_string())));
        let o = options_text(f.options(), "google.protobuf.FileOptions")?;
        d.put(&who, "options", o);
        for m in f.messages() {
            aud!(m.parent_file() == f && m.parent_message().is_none(), "{who}: messages() has {}", m.full_name());
        }
        for m in f.enums() {
            aud!(m.parent_file() == f && m.parent_message().is_none(), "{who}: enums() has {}", m.full_name());
        }
        for m in f.extensions() {
            aud!(m.parent_file() == f && m.parent_message().is_none(), "{who}: extensions() has {}", m.full_name());
        }
        for m in f.services() {
            aud!(m.parent_file() == f, "{who}: services() has {}", m.full_name());
        }
        if !f.package_name().is_empty() {
            let p = f.package_name();
            aud!(pool.get_message_by_name(p).is_none() && pool.get_enum_by_name(p).is_none(), "{who}: a package is no type");
        }
        d.dbg(&f, f.name())?;
    }
    aud!(pool.all_messages().len() == pool.all_messages().count(), "all_messages().len()");
    for m in pool.all_messages() {
        d.msg(&m)?;
    }
    for e in pool.all_enums() {
        d.enum_(&e)?;
    }
    for x in pool.all_extensions() {
        d.ext(&x)?;
    }
    for (i, s) in pool.services().enumerate() {
        let full = s.full_name();
        let who = format!("service {full}");
        d.once(&who)?;
        aud!(s.index() == i && ServiceDescriptor::new(pool.clone(), i) == s, "{who}: index");
        aud!(pool.get_service_by_name(full).as_ref() == Some(&s), "{who}: get_service_by_name");
        aud!(pool.get_message_by_name(full).is_none() && pool.get_enum_by_name(full).is_none(), "{who}: found as a type");
        aud!(s.parent_pool() == pool, "{who}: pool");
        aud!(s.service_descriptor_proto().name() == s.name(), "{who}: service_descriptor_proto");
        aud!(s.parent_file_descriptor_proto() == s.parent_file().file_descriptor_proto(), "{who}: parent_file_descriptor_proto");
        d.put(&who, "name", s.name());
        d.put(&who, "path", format!("{:?}", s.path()));
        d.put(&who, "file", s.parent_file().name());
        d.put(&who, "package", s.package_name());
        d.put(&who, "methods", set(s.methods().map(|m| m.name().to_string())));
        let o = options_text(s.options(), "google.protobuf.ServiceOptions")?;
        d.put(&who, "options", o);
        for (j, m) in s.methods().enumerate() {
            let who = format!("method {}", m.full_name());
            d.once(&who)?;
            aud!(m.index() == j && MethodDescriptor::new(s.clone(), j) == m, "{who}: index");
            aud!(m.parent_service() == &s && m.parent_file() == s.parent_file() && m.parent_pool() == pool, "{who}: parents");
            aud!(m.method_descriptor_proto().name() == m.name(), "{who}: method_descriptor_proto");
            d.put(&who, "name", m.name());
            d.put(&who, "path", format!("{:?}", m.path()));
            d.put(&who, "client", m.is_client_streaming().to_string());
            d.put(&who, "server", m.is_server_streaming().to_string());
            d.put(&who, "input", m.input().full_name());
            d.put(&who, "output", m.output().full_name());
            let o = options_text(m.options(), "google.protobuf.MethodOptions")?;
            d.put(&who, "options", o);
            d.dbg(&m, m.name())?;
        }
        d.dbg(&s, full)?;
    }
    if debug {
        d.dbg(pool, "DescriptorPool")?;
    }
    // every definition listed by a file or message has been seen by the iteration over the pool
    for (k, v) in d.out.clone() {
        if let Some(f) = k.strip_suffix(" / messages") {
            let scope = match f.strip_prefix("file ") {
                Some(n) => pool.get_file_by_name(n).unwrap().package_name().to_string(),
                None => f.trim_start_matches("msg ").to_string(),
            };
            for n in v.trim_matches(|c| c == '[' || c == ']').split(", ").filter(|s| !s.is_empty()) {
                let full = join(&scope, n.trim_matches('"'));
                aud!(d.out.contains_key(&format!("msg {full} / path")), "{full} is not in all_messages()");
            }
        }
    }
    Ok(d.out)
}

/// Both sides of a comparison of two dumps.
pub fn same(sig: &str, what: &str, want: &Dump, got: &Dump) -> Result<(), Fail> {
    for (k, v) in want {
        match got.get(k) {
            Some(g) if g == v => {}
            Some(g) => return fail(sig, format!("{what}: {k}: expected {v}, got {g}")),
            None => return fail(sig, format!("{what}: {k} is missing (expected {v})")),
        }
    }
    for (k, v) in got {
        if !want.contains_key(k) {
            return fail(sig, format!("{what}: unexpected {k} = {v}"));
        }
    }
    Ok(())
}

fn norm_field(f: &mut FieldDescriptorProto) {
    f.json_name = Some(f.json_name.clone().unwrap_or_else(|| json_camel(f.name())));
    f.label = Some(f.label() as i32);
    f.r#type = Some(f.r#type() as i32);
}
fn norm_msg(m: &mut DescriptorProto) {
    m.field.iter_mut().for_each(norm_field);
    m.extension.iter_mut().for_each(norm_field);
    m.nested_type.iter_mut().for_each(norm_msg);
}
/// Fills in what may be left out without changing the meaning.
pub fn norm_file(f: &FileDescriptorProto) -> FileDescriptorProto {
    let mut f = f.clone();
    f.message_type.iter_mut().for_each(norm_msg);
    f.extension.iter_mut().for_each(norm_field);
    f
}
