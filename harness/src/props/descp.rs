//! C17-C23: descriptor pools.

use super::faults::{self, Faults};
use crate::desc::{self, join, Expected, Res, Table, Want};
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::src::Src;
use prost::Message as _;
use prost_reflect::DescriptorPool;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{
    descriptor_proto, enum_descriptor_proto, source_code_info, DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto,
    EnumValueOptions, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet, MessageOptions,
    MethodDescriptorProto, MethodOptions, OneofDescriptorProto, ServiceDescriptorProto, ServiceOptions, SourceCodeInfo,
};

pub const C17: Prop = Prop {
    id: "C17",
    run: c17,
    quick: 80_000,
    thorough: 1_500_000,
    rule: "the file set has at least two messages and at least one definition that refers to another (field of message or enum type, extension, map, method)",
};

/// All suffixes of a full name, longest (absolute) first.
pub fn spellings(full: &str) -> Vec<String> {
    let abs = full.trim_start_matches('.');
    let mut v = vec![format!(".{abs}"), abs.to_string()];
    for (i, _) in abs.match_indices('.') {
        v.push(abs[i + 1..].to_string());
    }
    v
}
/// Another spelling of the reference which means the same.
fn respell(s: &mut Src, t: &Table, file: usize, scope: &str, name: &str, want: Want) -> String {
    let abs = name.trim_start_matches('.');
    let ok: Vec<String> = spellings(name)
        .into_iter()
        .filter(|n| matches!(t.resolve(file, scope, n, want), Res::Ok(r, _) if r == abs))
        .collect();
    if ok.is_empty() { name.to_string() } else { s.pick(&ok).clone() }
}
fn surface_field(s: &mut Src, t: &Table, file: usize, scope: &str, f: &mut FieldDescriptorProto) {
    let full = join(scope, f.name());
    if f.json_name.is_none() && s.chance(1, 4) {
        f.json_name = Some(json_camel(f.name()));
    }
    if f.label() == Label::Optional && s.chance(1, 6) {
        f.label = None;
    }
    if f.type_name.is_some() {
        f.type_name = Some(respell(s, t, file, &full, f.type_name(), Want::Type));
        if f.r#type() != Type::Group && s.chance(1, 6) {
            f.r#type = None;
        }
    }
    if f.extendee.is_some() {
        f.extendee = Some(respell(s, t, file, &full, f.extendee(), Want::Message));
    }
    if s.chance(1, 12) {
        let o = f.options.get_or_insert_with(Default::default);
        match s.below(5) {
            0 => o.deprecated = Some(s.flip()),
            1 => o.lazy = Some(s.flip()),
            2 => o.ctype = Some(s.below(3) as i32),
            3 => o.jstype = Some(s.below(3) as i32),
            _ => o.weak = Some(s.flip()),
        }
    }
}
fn surface_enum(s: &mut Src, e: &mut EnumDescriptorProto) {
    if s.chance(1, 8) {
        e.options.get_or_insert_with(Default::default).deprecated = Some(s.flip());
    }
    for v in &mut e.value {
        if s.chance(1, 10) {
            v.options = Some(EnumValueOptions { deprecated: if s.flip() { Some(s.flip()) } else { None }, ..Default::default() });
        }
    }
}
fn surface_msg(s: &mut Src, t: &Table, file: usize, scope: &str, m: &mut DescriptorProto) {
    let full = join(scope, m.name());
    for f in &mut m.field {
        surface_field(s, t, file, &full, f);
    }
    for f in &mut m.extension {
        surface_field(s, t, file, &full, f);
    }
    for n in &mut m.nested_type {
        surface_msg(s, t, file, &full, n);
    }
    for e in &mut m.enum_type {
        surface_enum(s, e);
    }
    for o in &mut m.oneof_decl {
        if s.chance(1, 8) {
            o.options = Some(Default::default());
        }
    }
    for r in &mut m.extension_range {
        if s.chance(1, 6) {
            r.options = Some(Default::default());
        }
    }
    if !m.options.as_ref().map_or(false, |o| o.map_entry()) && s.chance(1, 8) {
        let o = m.options.get_or_insert_with(Default::default);
        match s.below(3) {
            0 => o.deprecated = Some(s.flip()),
            1 => o.no_standard_descriptor_accessor = Some(s.flip()),
            _ => o.message_set_wire_format = Some(false),
        }
    }
}
fn random_path(s: &mut Src) -> Vec<i32> {
    let n = s.below(5) as usize;
    (0..n).map(|_| *s.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 999])).collect()
}
pub fn source_info(s: &mut Src) -> SourceCodeInfo {
    let n = s.below(6);
    SourceCodeInfo {
        location: (0..n)
            .map(|_| source_code_info::Location {
                path: random_path(s),
                span: match s.below(4) {
                    0 => vec![],
                    1 => vec![s.below(100) as i32, s.below(80) as i32, s.below(80) as i32],
                    _ => vec![s.below(50) as i32, s.below(80) as i32, 50 + s.below(50) as i32, s.below(80) as i32],
                },
                leading_comments: if s.chance(1, 3) { Some(s.string()) } else { None },
                trailing_comments: if s.chance(1, 5) { Some(s.string()) } else { None },
                leading_detached_comments: if s.chance(1, 5) { vec![s.string()] } else { vec![] },
            })
            .collect(),
    }
}
/// The same schema, written differently.
pub fn surface(s: &mut Src, files: &[FileDescriptorProto]) -> Vec<FileDescriptorProto> {
    let t = Table::new(files);
    let mut out = files.to_vec();
    for (i, f) in out.iter_mut().enumerate() {
        if f.package() == "google.protobuf" {
            continue;
        }
        let pkg = f.package().to_string();
        for m in &mut f.message_type {
            surface_msg(s, &t, i, &pkg, m);
        }
        for e in &mut f.enum_type {
            surface_enum(s, e);
        }
        for x in &mut f.extension {
            surface_field(s, &t, i, &pkg, x);
        }
        for sv in &mut f.service {
            let full = join(&pkg, sv.name());
            if s.chance(1, 6) {
                sv.options = Some(ServiceOptions { deprecated: Some(s.flip()), ..Default::default() });
            }
            for m in &mut sv.method {
                let mfull = join(&full, m.name());
                m.input_type = Some(respell(s, &t, i, &mfull, m.input_type(), Want::Message));
                m.output_type = Some(respell(s, &t, i, &mfull, m.output_type(), Want::Message));
                if s.chance(1, 6) {
                    m.options = Some(MethodOptions { idempotency_level: Some(s.below(3) as i32), ..Default::default() });
                }
            }
        }
        if s.chance(1, 4) {
            f.source_code_info = Some(source_info(s));
        }
        if !f.dependency.is_empty() && s.chance(1, 8) {
            f.weak_dependency.push(s.below(f.dependency.len() as u64) as i32);
        }
        if s.chance(1, 4) {
            let o = f.options.get_or_insert_with(Default::default);
            match s.below(4) {
                0 => o.optimize_for = Some(1 + s.below(3) as i32),
                1 => o.go_package = Some(s.string()),
                2 => o.cc_enable_arenas = Some(s.flip()),
                _ => o.java_package = Some("x.y".into()),
            }
        }
    }
    out
}

pub fn big_cfg(s: &mut Src) -> Cfg {
    Cfg {
        wkt: s.chance(1, 10),
        services: true,
        max_files: 1 + s.below(5),
        max_msgs: 1 + s.below(6),
        max_fields: 1 + s.below(8),
        ..Default::default()
    }
}
pub fn show(files: &[FileDescriptorProto]) -> String {
    files.iter().filter(|f| f.package() != "google.protobuf").map(|f| format!("{f:?}")).collect::<Vec<_>>().join("\n")
}
fn emit_expected(files: &[FileDescriptorProto], e: &Expected) {
    if std::env::var_os("VH_EMIT").is_some() {
        let (v, n) = match e {
            Expected::Valid(_, n) => (1, n.clone()),
            Expected::Invalid(_) => (0, vec![]),
            Expected::Unsure => (2, vec![]),
        };
        emit(v, &FileDescriptorSet { file: files.to_vec() }.encode_to_vec(), &FileDescriptorSet { file: n }.encode_to_vec());
    }
}
pub fn err_text(e: &prost_reflect::DescriptorError) -> String {
    format!("{e:?}")
}

fn c17(c: &mut Ctx) -> R {
    let cfg = big_cfg(&mut c.s);
    let m = gen_model(&mut c.s, &cfg);
    let base = m.fds().file;
    let mut files = surface(&mut c.s, &base);
    if c.s.chance(1, 3) {
        c.s.shuffle(&mut files);
    }
    c.note(|| show(&files));
    c.digest(&FileDescriptorSet { file: files.clone() }.encode_to_vec());
    let refs = m.msgs.iter().any(|m| m.fields.iter().any(|f| !matches!(f.ty, Ty::Double) && matches!(f.ty, Ty::Enum(_) | Ty::Message(_) | Ty::Group(_)))) || !m.exts.is_empty() || m.services.iter().any(|s| !s.methods.is_empty());
    c.nontrivial = user_msgs(&m).len() >= 2 && refs;
    c.label_if(!m.exts.is_empty(), "extensions");
    c.label_if(!m.services.is_empty(), "services");
    c.label_if(m.files.len() > 1, "several files");
    c.label_if(m.msgs.iter().any(|m| m.map_entry), "maps");
    c.label_if(m.msgs.iter().any(|m| m.fields.iter().any(|f| f.default.is_some())), "defaults");
    c.label_if(m.msgs.iter().any(|m| m.oneofs.iter().any(|o| o.synthetic)), "proto3 optional");
    let (want, norm) = match desc::expect(&files) {
        Expected::Valid(d, n) => (d, n),
        Expected::Invalid(e) => panic!("harness: generated schema is invalid: {e}"),
        Expected::Unsure => panic!("harness: generated schema is ambiguous"),
    };
    let pool = match c.s.below(3) {
        0 => DescriptorPool::decode(c.s.split(FileDescriptorSet { file: files.clone() }.encode_to_vec())),
        _ => DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: files.clone() }),
    };
    let pool = match pool {
        Ok(p) => p,
        Err(e) => return fail("rejected", format!("valid files rejected: {}", err_text(&e))),
    };
    let debug = c.s.chance(1, 4);
    let got = desc::dump(&pool, debug)?;
    desc::same("attribute", "descriptors and file", &want, &got)?;
    for (f, n) in pool.file_descriptor_protos().zip(&norm) {
        let (a, b) = (desc::norm_file(f), desc::norm_file(n));
        ensure!(a == b, "proto", "file_descriptor_proto() of {} differs\n  expected {:?}\n  got      {:?}", f.name(), b, a);
    }
    Ok(())
}

// ---- C18 ---------------------------------------------------------------------------------------

pub const C18: Prop = Prop {
    id: "C18",
    run: c18,
    quick: 150_000,
    thorough: 6_000_000,
    rule: "at least one reference is relative and its first component names more than one definition or package in the set, or the set has an import chain, or a reference is expected to be rejected",
};

const SMALL: [&str; 6] = ["a", "b", "c", "A", "B", "ab"];

struct Names<'a> {
    s: &'a mut Src,
    used: std::collections::BTreeSet<String>,
    packages: Vec<String>,
    next_ext: i32,
}
impl Names<'_> {
    /// a name not yet taken in `scope`
    fn fresh(&mut self, scope: &str) -> Option<String> {
        for _ in 0..4 {
            let n = *self.s.pick(&SMALL);
            let full = join(scope, n);
            let is_pkg = self.packages.iter().any(|p| *p == full || p.starts_with(&format!("{full}.")));
            if !is_pkg && self.used.insert(full) {
                return Some(n.to_string());
            }
        }
        None
    }
    fn msg(&mut self, scope: &str, depth: u32) -> Option<DescriptorProto> {
        let name = self.fresh(scope)?;
        let full = join(scope, &name);
        let mut m = DescriptorProto { name: Some(name), ..Default::default() };
        m.extension_range.push(descriptor_proto::ExtensionRange { start: Some(100), end: Some(1000), options: None });
        if depth < 3 {
            for _ in 0..self.s.weighted(&[4, 3, 1]) {
                m.nested_type.extend(self.msg(&full, depth + 1));
            }
        }
        for _ in 0..self.s.weighted(&[5, 1]) {
            m.enum_type.extend(self.enum_(&full));
        }
        for i in 0..self.s.weighted(&[1, 4, 3]) {
            if let Some(n) = self.fresh(&full) {
                m.field.push(FieldDescriptorProto { name: Some(n), number: Some(i as i32 + 1), label: Some(Label::Optional as i32), ..Default::default() });
            }
        }
        if !m.field.is_empty() && self.s.chance(1, 8) {
            if let Some(n) = self.fresh(&full) {
                m.oneof_decl.push(OneofDescriptorProto { name: Some(n), options: None });
                m.field[0].oneof_index = Some(0);
            }
        }
        for _ in 0..self.s.weighted(&[6, 1]) {
            m.extension.extend(self.ext(&full));
        }
        Some(m)
    }
    fn enum_(&mut self, scope: &str) -> Option<EnumDescriptorProto> {
        let name = self.fresh(scope)?;
        let value = self.fresh(scope)?;
        Some(EnumDescriptorProto { name: Some(name), value: vec![EnumValueDescriptorProto { name: Some(value), number: Some(0), options: None }], ..Default::default() })
    }
    fn ext(&mut self, scope: &str) -> Option<FieldDescriptorProto> {
        let name = self.fresh(scope)?;
        self.next_ext += 1;
        Some(FieldDescriptorProto { name: Some(name), number: Some(100 + self.next_ext), label: Some(Label::Optional as i32), extendee: Some(String::new()), ..Default::default() })
    }
}

struct Refs<'a, 'b> { s: &'a mut Src, t: &'a Table<'b>, msgs: Vec<String>, types: Vec<String>, wrong: bool, ambiguous: bool, bad: u32 }
impl Refs<'_, '_> {
    fn reference(&mut self, file: usize, scope: &str, want: Want) -> Option<String> {
        let pool = if want == Want::Message { &self.msgs } else { &self.types };
        for _ in 0..30 {
            let n = if !pool.is_empty() && self.s.chance(3, 4) {
                let target = self.s.pick(pool).clone();
                let sp = spellings(&target);
                self.s.pick(&sp).clone()
            } else {
                let k = 1 + self.s.below(3);
                let parts: Vec<&str> = (0..k).map(|_| *self.s.pick(&SMALL)).collect();
                format!("{}{}", if self.s.chance(1, 4) { "." } else { "" }, parts.join("."))
            };
            match self.t.resolve(file, scope, &n, want) {
                Res::Ok(..) => {
                    if !n.starts_with('.') {
                        let first = n.split('.').next().unwrap();
                        let k = self.t.syms.keys().filter(|s| s.rsplit('.').next() == Some(first)).count()
                            + self.t.files.iter().filter(|f| f.package().split('.').any(|p| p == first)).count();
                        self.ambiguous |= k > 1;
                    }
                    return Some(n);
                }
                Res::Bad if self.wrong && self.s.chance(1, 6) => {
                    self.bad += 1;
                    self.wrong = false;
                    return Some(n);
                }
                _ => {}
            }
        }
        None
    }
    /// a field without a usable type reference becomes a scalar
    fn field(&mut self, file: usize, scope: &str, f: &mut FieldDescriptorProto) {
        let full = join(scope, f.name());
        match self.reference(file, &full, Want::Type) {
            Some(n) => f.type_name = Some(n),
            None => f.r#type = Some(Type::Int32 as i32),
        }
    }
    fn exts(&mut self, file: usize, scope: &str, v: &mut Vec<FieldDescriptorProto>) {
        v.retain_mut(|x| {
            let full = join(scope, x.name());
            match self.reference(file, &full, Want::Message) {
                Some(n) => {
                    x.extendee = Some(n);
                    self.field(file, scope, x);
                    true
                }
                None => false,
            }
        });
    }
    fn msg(&mut self, file: usize, scope: &str, m: &mut DescriptorProto) {
        let full = join(scope, m.name());
        for f in &mut m.field {
            self.field(file, &full, f);
        }
        self.exts(file, &full, &mut m.extension);
        for n in &mut m.nested_type {
            self.msg(file, &full, n);
        }
    }
}

pub fn add_all(s: &mut Src, files: &[FileDescriptorProto], order: u64) -> Result<DescriptorPool, String> {
    match order {
        0 => DescriptorPool::from_file_descriptor_set(FileDescriptorSet { file: files.to_vec() }).map_err(|e| err_text(&e)),
        1 => {
            let mut p = DescriptorPool::new();
            for f in files {
                p.add_file_descriptor_proto(f.clone()).map_err(|e| err_text(&e))?;
            }
            Ok(p)
        }
        _ => {
            let mut fs = files.to_vec();
            s.shuffle(&mut fs);
            let mut p = DescriptorPool::new();
            p.add_file_descriptor_protos(fs).map_err(|e| err_text(&e))?;
            Ok(p)
        }
    }
}

fn c18(c: &mut Ctx) -> R {
    let mut files: Vec<FileDescriptorProto> = vec![];
    let long = c.s.chance(1, 12);
    let nfiles = 1 + if long { 5 + c.s.below(5) } else { c.s.below(5) } as usize;
    let mut g = Names { used: Default::default(), packages: vec![], next_ext: 0, s: &mut c.s };
    for _ in 0..nfiles {
        let k = g.s.weighted(&[4, 10, 10, 4, 1, 1, 1]);
        let p = (0..k).map(|_| *g.s.pick(&["a", "b", "c", "ab"])).collect::<Vec<_>>().join(".");
        g.packages.push(p);
    }
    let mut chain = false;
    for i in 0..nfiles {
        let package = g.packages[i].clone();
        let mut f = FileDescriptorProto { name: Some(format!("{i}.proto")), ..Default::default() };
        if !package.is_empty() {
            f.package = Some(package.clone());
        }
        for d in 0..i {
            if if long && d + 1 == i { g.s.chance(9, 10) } else { g.s.chance(1, if long { 6 } else { 2 }) } {
                if g.s.chance(if long { 8 } else { 5 }, 10) {
                    f.public_dependency.push(f.dependency.len() as i32);
                }
                chain |= !files[d].public_dependency.is_empty();
                f.dependency.push(format!("{d}.proto"));
            }
        }
        for _ in 0..1 + g.s.below(3) {
            f.message_type.extend(g.msg(&package, 0));
        }
        for _ in 0..g.s.weighted(&[2, 1]) {
            f.enum_type.extend(g.enum_(&package));
        }
        for _ in 0..g.s.weighted(&[3, 1, 1]) {
            f.extension.extend(g.ext(&package));
        }
        for _ in 0..g.s.weighted(&[3, 1]) {
            if let Some(n) = g.fresh(&package) {
                let full = join(&package, &n);
                let method = (0..1 + g.s.below(2))
                    .filter_map(|_| g.fresh(&full))
                    .map(|n| MethodDescriptorProto { name: Some(n), ..Default::default() })
                    .collect();
                f.service.push(ServiceDescriptorProto { name: Some(n), method, options: None });
            }
        }
        files.push(f);
    }
    let shells = files.clone();
    let t = Table::new(&shells);
    let of = |k: &[desc::Sym]| {
        let mut v: Vec<String> = t.syms.iter().filter(|(_, s)| k.contains(&s.0)).map(|(n, _)| n.clone()).collect();
        v.sort();
        v
    };
    let (msgs, types) = (of(&[desc::Sym::Msg]), of(&[desc::Sym::Msg, desc::Sym::Enum]));
    let wrong = c.s.chance(1, 3);
    let mut r = Refs { s: &mut c.s, t: &t, msgs, types, wrong, ambiguous: false, bad: 0 };
    for (i, f) in files.iter_mut().enumerate() {
        let pkg = f.package().to_string();
        for m in &mut f.message_type {
            r.msg(i, &pkg, m);
        }
        r.exts(i, &pkg, &mut f.extension);
        for sv in &mut f.service {
            let full = join(&pkg, sv.name());
            sv.method.retain_mut(|m| {
                let mfull = join(&full, m.name());
                m.input_type = r.reference(i, &mfull, Want::Message);
                m.output_type = r.reference(i, &mfull, Want::Message);
                m.input_type.is_some() && m.output_type.is_some()
            });
        }
    }
    let (ambiguous, bad) = (r.ambiguous, r.bad);
    c.note(|| show(&files));
    c.digest(&FileDescriptorSet { file: files.clone() }.encode_to_vec());
    let order = c.s.below(3);
    let got = add_all(&mut c.s, &files, order);
    let e = desc::expect(&files);
    emit_expected(&files, &e);
    match e {
        Expected::Unsure => c.label("not judged"),
        Expected::Invalid(why) => {
            c.label("rejected");
            c.nontrivial = true;
            ensure!(got.is_err(), "accepted", "the files were accepted although {why}");
        }
        Expected::Valid(want, norm) => {
            if bad > 0 {
                // removing a definition without a usable reference can make a bad reference good or void
                c.label("repaired");
            }
            c.nontrivial = ambiguous || chain;
            c.label_if(ambiguous, "ambiguous first component");
            c.label_if(chain, "import chain");
            let pool = match got {
                Ok(p) => p,
                Err(e) => return fail("rejected", format!("valid files rejected: {e}")),
            };
            let d = desc::dump(&pool, false)?;
            desc::same("resolution", "descriptors and files", &want, &d)?;
            // the same references, written absolutely
            if c.s.chance(1, 3) {
                let abs = match add_all(&mut c.s, &norm, 0) {
                    Ok(p) => p,
                    Err(e) => return fail("absolute", format!("the files with absolute names were rejected: {e}")),
                };
                desc::same("absolute", "pools with absolute and relative names", &d, &desc::dump(&abs, false)?)?;
            }
        }
    }
    Ok(())
}

// ---- C19 ---------------------------------------------------------------------------------------

pub const C19: Prop = Prop {
    id: "C19",
    run: c19,
    quick: 120_000,
    thorough: 3_000_000,
    rule: "the case has a planted fault, or is a valid set with at least four definitions that come close to a fault",
};

fn paths_of(m: &prost_reflect::DynamicMessage, at: &[i32], out: &mut Vec<Vec<i32>>) {
    use prost_reflect::Value;
    for (f, v) in m.fields() {
        let p = [at, &[f.number() as i32]].concat();
        out.push(p.clone());
        match v {
            Value::List(l) => {
                for (i, x) in l.iter().enumerate() {
                    let p = [&p[..], &[i as i32]].concat();
                    out.push(p.clone());
                    if let Value::Message(m) = x {
                        paths_of(m, &p, out);
                    }
                }
            }
            Value::Message(m) => paths_of(m, &p, out),
            _ => {}
        }
    }
}
fn file_paths(f: &FileDescriptorProto) -> Vec<Vec<i32>> {
    let d = DescriptorPool::global().get_message_by_name("google.protobuf.FileDescriptorProto").unwrap();
    let m = prost_reflect::DynamicMessage::decode(d, f.encode_to_vec().as_slice()).unwrap();
    let mut out = vec![vec![]];
    paths_of(&m, &[], &mut out);
    out
}
/// One location for most paths of the file
///
/// If `good`, each is on lines of its own, and not empty.
pub fn all_locations(s: &mut Src, f: &FileDescriptorProto, good: bool) -> SourceCodeInfo {
    let mut v: Vec<Vec<i32>> = file_paths(f);
    let few = !good || s.flip();
    v.retain(|p| p.first() != Some(&9) && !(few && s.chance(1, 8)));
    if s.chance(1, 4) {
        s.shuffle(&mut v);
    }
    let mut n = 0;
    SourceCodeInfo {
        location: v
            .into_iter()
            .map(|path| {
                n += 1 + s.below(3) as i32;
                let (a, b) = (s.below(60) as i32, s.below(60) as i32);
                if good {
                    let span = if s.chance(1, 6) { vec![n, a, n + 1, b] } else { vec![n, a, a + 1 + b] };
                    n += 1;
                    return source_code_info::Location { path, span, ..Default::default() };
                }
                let span = match s.below(8) {
                    0 => match s.below(5) {
                        0 => vec![],
                        1 => vec![-n, a, b],
                        2 => vec![n, a, n, -1],
                        3 => vec![n, a],
                        _ => vec![n, a, n, b, 0],
                    },
                    1 | 2 => vec![n, a, n + 1, b],
                    _ => vec![n, a, a + b],
                };
                source_code_info::Location { path, span, ..Default::default() }
            })
            .collect(),
    }
}
fn add_split(s: &mut Src, files: &[FileDescriptorProto], first: usize) -> (Result<(), prost_reflect::DescriptorError>, DescriptorPool) {
    let mut p = DescriptorPool::new();
    if first > 0 {
        if let Err(e) = p.add_file_descriptor_protos(files[..first].to_vec()) {
            return (Err(e), p);
        }
    }
    let rest = &files[first..];
    let r = if rest.len() == 1 && s.flip() {
        p.add_file_descriptor_proto(rest[0].clone())
    } else if s.chance(1, 3) {
        p.decode_file_descriptor_set(FileDescriptorSet { file: rest.to_vec() }.encode_to_vec().as_slice())
    } else {
        let mut v = rest.to_vec();
        if s.chance(1, 4) {
            s.shuffle(&mut v);
        }
        p.add_file_descriptor_protos(v)
    };
    (r, p)
}
fn good_span(s: &[i32]) -> bool {
    matches!(*s, [l, a, b] if l > 0 && 0 <= a && a < b) || matches!(*s, [l, a, m, b] if l > 0 && m == l + 1 && a >= 0 && b >= 0)
}
/// The value at a path of a file.
fn value_at(f: &FileDescriptorProto, path: &[i32]) -> Option<prost_reflect::Value> {
    use prost_reflect::{DynamicMessage, Value};
    let d = DescriptorPool::global().get_message_by_name("google.protobuf.FileDescriptorProto").unwrap();
    let mut v = Value::Message(DynamicMessage::decode(d, f.encode_to_vec().as_slice()).unwrap());
    for &p in path {
        v = match v {
            Value::Message(m) => m.fields().find(|(f, _)| f.number() as i32 == p)?.1.clone(),
            Value::List(l) => l.get(usize::try_from(p).ok()?)?.clone(),
            _ => return None,
        };
    }
    Some(v)
}
/// The places that a diagnostic marks in the text of a file, of which `path` is the first.
///
/// Each definition begins on a line of its own.
fn marked(d: &dyn miette::Diagnostic, f: &FileDescriptorProto, width: usize, path: Option<&[i32]>, kind: &str) -> R {
    use prost_reflect::Value;
    let locs = &f.source_code_info.as_ref().unwrap().location;
    let located = |p: &[i32]| locs.iter().any(|l| l.path == p);
    let mut at: Vec<&[i32]> = vec![];
    for l in d.labels().into_iter().flatten() {
        let place = locs.iter().find(|x| {
            let (a, b) = match x.span[..] {
                [l, a, b] => ((l, a), (l, b)),
                [l, a, m, b] => ((l, a), (m, b)),
                _ => unreachable!(),
            };
            let o = |(l, c): (i32, i32)| l as usize * width + c as usize;
            (l.offset(), l.offset() + l.len()) == (o(a), o(b))
        });
        match place {
            Some(x) => at.push(&x.path),
            None => return fail("labels", format!("{d} is marked at {l:?}, where there is nothing")),
        }
    }
    let Some(path) = path else { return Ok(()) };
    ensure!(at.contains(&path) == located(path), "labels", "{d} is at {path:?}, the marks are at {at:?}");
    let others: Vec<&&[i32]> = at.iter().filter(|p| **p != path).collect();
    ensure!(others.len() <= 1, "labels", "{d} at {path:?} has marks at {at:?}");
    // where else one has to look
    let up = |n: usize| &path[..path.len().saturating_sub(n)];
    let here = value_at(f, path);
    let all = file_paths(f);
    let range = |tag: i32| -> Vec<Vec<i32>> {
        let Some(n) = here.as_ref().and_then(|v| v.as_i32()) else { return vec![] };
        let has = |p: &Vec<i32>| match value_at(f, p) {
            Some(Value::Message(r)) => {
                let end = r.get_field_by_name("end").unwrap().as_i32().unwrap();
                (r.get_field_by_name("start").unwrap().as_i32().unwrap()..=end.saturating_sub((tag != 4) as i32)).contains(&n)
            }
            _ => false,
        };
        all.iter().filter(|p| p.len() == up(3).len() + 2 && p.starts_with(up(3)) && p[p.len() - 2] == tag && has(p)).cloned().collect()
    };
    let same = |up: &[i32]| -> Vec<Vec<i32>> { all.iter().filter(|p| p.starts_with(up) && p.len() == path.len() && p.last() == path.last() && p[..] != *path && value_at(f, p) == here).cloned().collect() };
    let want: Option<Vec<Vec<i32>>> = match kind {
        "reserved field number" => Some(range(9)),
        "field number in an extension range" => Some(range(5)),
        "reserved enum number" => Some(range(4)),
        "duplicate field number" | "enum number used twice" => Some(same(up(2))),
        "duplicate field name" | "duplicate method" => None,
        "conflicting JSON names" | "proto3 field names equal in camel case" => Some(all.iter().filter(|p| p.starts_with(up(2)) && p.len() == path.len() && p.last() == Some(&1) && p[..] != *path && value_at(f, p).is_some_and(|v| v.as_str().is_some_and(|v| v.starts_with("zz")))).cloned().collect()),
        "extension number used twice" => Some(all.iter().filter(|p| p.last() == Some(&3) && p[..] != *path && p.len() >= 3 && matches!(p[p.len() - 3], 6 | 7) && value_at(f, p) == here && value_at(f, &[&p[..p.len() - 1], &[2]].concat()) == value_at(f, &[up(1), &[2]].concat())).cloned().collect()),
        _ => None,
    };
    match want {
        Some(w) => {
            ensure!(others.iter().all(|o| w.iter().any(|w| w == **o)), "labels", "{d} at {path:?} is marked also at {others:?}, it conflicts with {w:?}");
            ensure!(w.is_empty() || !w.iter().all(|w| located(w)) || !others.is_empty(), "labels", "{d} at {path:?} is not marked at {w:?}");
        }
        None => {
            let name = |p: &[i32]| value_at(f, p).and_then(|v| v.as_str().map(String::from)).or_else(|| value_at(f, &[p, &[1]].concat()).and_then(|v| v.as_str().map(String::from)));
            for o in others {
                let (a, b) = (name(o), name(path));
                let last = |s: &Option<String>| s.as_ref().map(|s| s.rsplit('.').next().unwrap().to_string());
                ensure!(kind == "definition with the name of a package" || last(&a) == last(&b), "labels", "{d} at {path:?} ({b:?}) is marked also at {o:?} ({a:?})");
            }
        }
    }
    Ok(())
}
/// Whether an error is exactly where the fault is: the path from the definition with the fault.
fn exact(kind: &str, rest: &[i32]) -> bool {
    match kind {
        "bad default value" | "bad enum or message default" => rest == [7],
        "bad extendee" => rest == [2],
        "bad method type" => rest.is_empty(),
        "conflicting JSON names" | "proto3 field names equal in camel case" => rest.len() == 1,
        "definition with the name of a package" => matches!(rest, [2] | [4..=6, _, 1] | [5, 0, 2, 0, 1]),
        "duplicate definition in a message" | "duplicate definition in a package" => matches!(rest, [1] | [2, 0, 1]),
        "duplicate field name" => matches!(rest, [1] | [2, _, 1]),
        "duplicate field number" => matches!(rest, [3] | [2, _, 3]),
        "duplicate method" => matches!(rest, [2, 0 | 2, 1]),
        "empty enum" | "missing import" | "unknown syntax" => rest.is_empty(),
        "enum number used twice" => matches!(rest, [2, _, 2]),
        "extension number outside the ranges" | "extension number used twice" | "field number in an extension range" | "field number out of range" | "reserved field number" => rest == [3],
        "field of unknown type number" | "ill-formed map entry" | "type from a file that is not imported" | "type of the wrong sort" | "unresolved type" => rest == [6],
        "ill-formed package" => rest == [2],
        "missing or ill-formed name" => matches!(rest, [1] | [2, 1, 1]),
        "proto3 enum not starting at zero" => rest == [2, 0, 2],
        "reserved enum number" => rest == [2, 1, 2],
        "unknown option" => matches!(rest, [.., 999, 0]),
        _ => true,
    }
}
/// Checks everything an error says about itself.
pub fn audit_error(c: &mut Ctx, e: prost_reflect::DescriptorError, files: &[FileDescriptorProto], kind: &str) -> Result<(Option<String>, Vec<i32>), Fail> {
    use miette::Diagnostic as _;
    let file = e.file().map(|f| f.to_string());
    let path = e.path().map(|p| p.to_vec());
    let text = e.to_string();
    let dbg = format!("{e:?}");
    let _ = format!("{e:#?}");
    ensure!(!text.is_empty(), "message", "the error has an empty message");
    let (line, column) = (e.line(), e.column());
    match &file {
        None => ensure!(path.is_none() && line.is_none() && column.is_none(), "position", "no file, but path {path:?}, line {line:?}, column {column:?}"),
        Some(n) => {
            let Some(f) = files.iter().find(|f| f.name() == n) else { return fail("position", format!("{dbg} is about an unknown file {n:?}")) };
            let Some(p) = &path else { return fail("position", format!("{dbg} has a file but no path")) };
            let have = file_paths(f);
            let mut parent = p.clone();
            parent.pop();
            ensure!(have.contains(p) || have.contains(&parent), "position", "{dbg}: there is nothing at {p:?} in {n}");
            let loc = f.source_code_info.as_ref().and_then(|s| s.location.iter().find(|l| l.path == *p)).map(|l| l.span.clone()).filter(|s| (s.len() == 3 || s.len() == 4) && s.iter().all(|&n| n >= 0));
            let want = loc.as_ref().map(|s| (s[0] as usize, s[1] as usize));
            ensure!(line == want.map(|w| w.0) && column == want.map(|w| w.1), "position", "{dbg}: position {line:?} {column:?} of {p:?} in {n}, the source information says {want:?}");
            ensure!(dbg.starts_with(&format!("{n}:")) && dbg.contains(&text), "message", "{dbg:?} for {text:?} in {n}");
            if let Some((l, c)) = want {
                ensure!(dbg.starts_with(&format!("{n}:{}:{}: ", l + 1, c + 1)), "message", "{dbg:?} for line {l} column {c}");
            }
        }
    }
    let good = file.as_ref().and_then(|n| files.iter().find(|f| f.name() == n)).filter(|f| f.source_code_info.as_ref().is_some_and(|s| !s.location.is_empty() && s.location.iter().all(|l| good_span(&l.span))));
    let width = 121usize;
    let src: String = match c.s.below(3) {
        _ if good.is_some() => format!("{}\n", "x".repeat(width - 1)).repeat(good.unwrap().source_code_info.as_ref().unwrap().location.iter().map(|l| l.span[0]).max().unwrap() as usize + 2),
        0 => String::new(),
        1 => c.s.string(),
        _ => {
            let mut t = String::new();
            for _ in 0..c.s.below(200) {
                for _ in 0..c.s.below(50) {
                    t.push(*c.s.pick(&['a', ' ', '\t', '\u{e9}', '\u{10ffff}']));
                }
                t.push('\n');
            }
            t
        }
    };
    let e = e.with_source_code(&src);
    let mut all: Vec<&dyn miette::Diagnostic> = vec![&e];
    if let Some(r) = e.related() {
        all.extend(r);
    }
    for d in all {
        let _ = (d.code().map(|c| c.to_string()), d.help().map(|c| c.to_string()), d.url().map(|c| c.to_string()), d.severity(), d.to_string(), format!("{d:?}"));
        for l in d.labels().into_iter().flatten() {
            ensure!(l.offset() + l.len() <= src.len() && src.is_char_boundary(l.offset()), "labels", "label {l:?} outside a source of {} bytes", src.len());
        }
        if let Some(f) = good {
            marked(d, f, width, if std::ptr::eq(d as *const _ as *const u8, &e as *const _ as *const u8) { path.as_deref() } else { None }, kind)?;
        }
        if let Some(n) = d.diagnostic_source() {
            let _ = n.to_string();
        }
        let mut o = std::error::Error::source(d);
        while let Some(x) = o {
            let _ = x.to_string();
            o = x.source();
        }
    }
    let mut out = String::new();
    let _ = miette::NarratableReportHandler::new().render_report(&mut out, &e);
    Ok((file, path.unwrap_or_default()))
}

fn c19(c: &mut Ctx) -> R {
    let cfg = Cfg { max_files: 1 + c.s.below(3), max_msgs: 1 + c.s.below(4), max_fields: 1 + c.s.below(5), services: true, ..Default::default() };
    let m = gen_model(&mut c.s, &cfg);
    let mut files = m.fds().file;
    if c.s.chance(1, 2) {
        files = surface(&mut c.s, &files);
        // locations are added below
        files.iter_mut().for_each(|f| f.source_code_info = None);
    }
    let first = if c.s.chance(1, 3) { c.s.us(files.len()) } else { 0 };
    let fault = c.s.chance(4, 5);
    let mut p = Faults { s: &mut c.s, files, at: vec![], kind: String::new(), none: false, first };
    if fault {
        let planted = p.plant();
        if planted.is_none() {
            c.label("no place for the fault");
            return Ok(());
        }
    } else {
        near_misses(&mut p);
    }
    let (mut files, at, kind, none) = (p.files, p.at, p.kind, p.none);
    let good = c.s.flip();
    for f in &mut files {
        if c.s.chance(if good { 3 } else { 2 }, 4) {
            f.source_code_info = Some(all_locations(&mut c.s, f, good));
        }
    }
    c.note(|| format!("{} at {at:?}, after {first} files\n{}", if fault { &kind } else { "valid" }, show(&files)));
    c.digest(&FileDescriptorSet { file: files.clone() }.encode_to_vec());
    emit(if fault { 0 } else { 1 }, &FileDescriptorSet { file: files.clone() }.encode_to_vec(), kind.as_bytes());
    c.nontrivial = true;
    c.label(if fault { &kind } else { "valid" });
    let (r, _) = add_split(&mut c.s, &files, first);
    match r {
        Err(e) if !fault => fail("rejected", format!("valid files rejected: {}", err_text(&e))),
        Ok(()) if !fault => Ok(()),
        Ok(()) => fail(&format!("accepted: {kind}"), format!("files with a fault were accepted: {kind} at {at:?}")),
        Err(e) => {
            let text = err_text(&e);
            let (file, path) = audit_error(c, e, &files, &kind)?;
            match file {
                None => {
                    ensure!(none, "no file", "the error {text:?} names no file; the fault is {kind} at {at:?}");
                    if kind == "duplicate file name" {
                        ensure!(files.iter().any(|f| text.contains(f.name())), "no file", "{text:?} does not name the file");
                    }
                }
                Some(f) => ensure!(
                    none || at.iter().any(|(n, p)| *n == f && path.starts_with(p) && exact(&kind, &path[p.len()..])),
                    "place",
                    "the error {text:?} is about {path:?} of {f}; the fault ({kind}) is at {at:?}"
                ),
            }
            Ok(())
        }
    }
}

/// Definitions that are valid, but close to a fault.
fn near_misses(p: &mut Faults) {
    for k in 0..4 + p.s.below(6) {
        near_miss(p, k);
    }
}
fn near_miss(p: &mut Faults, k: u64) {
    use faults::*;
    let free = |files: &[FileDescriptorProto], site: &Site, mut n: i32| {
        let mut m = files.to_vec();
        let m = msg_mut(&mut m, site).clone();
        while m.field.iter().any(|f| f.number() == n) || m.reserved_range.iter().any(|r| r.start() <= n && n < r.end()) || m.extension_range.iter().any(|r| r.start() <= n && n < r.end()) {
            n += 1;
        }
        n
    };
    let all: Vec<Site> = sites(&p.files).into_iter().filter(|s| !s.entry && s.file >= p.first).collect();
    if all.is_empty() {
        return;
    }
    let site = p.s.pick(&all).clone();
    let i = site.file;
    let proto3 = site.proto3;
    let m = msg_mut(&mut p.files, &site).clone();
    let in_ext = |n: i32| m.extension_range.iter().any(|r| r.start() <= n && n < r.end());
    match p.s.below(13) {
        0 => {
            // the ends of the range of field numbers
            let n = *p.s.pick(&[1, 18999, 20000, 536_870_911]);
            if !in_ext(n) && m.field.iter().all(|f| f.number() != n) && m.reserved_range.iter().all(|r| n < r.start() || n >= r.end()) {
                msg_mut(&mut p.files, &site).field.push(fld(&format!("zzm{k}"), n, Type::Int32));
            }
        }
        1 => {
            // just outside a reserved range
            let n = free(&p.files, &site, 60);
            if m.field.iter().all(|f| f.number() != n + 1 && f.number() != n - 1) && !in_ext(n + 1) && !in_ext(n - 1) {
                let d = msg_mut(&mut p.files, &site);
                let (a, b) = if p.s.flip() { (n + 1, n + 2) } else { (n - 1, n) };
                if m.reserved_range.iter().all(|r| b <= r.start() || a >= r.end()) {
                    d.reserved_range.push(descriptor_proto::ReservedRange { start: Some(a), end: Some(b) });
                    d.field.push(fld(&format!("zzm{k}"), n, Type::Int32));
                }
            }
        }
        2 if !proto3 => {
            // extension numbers at both ends of a range, and one used for two extendees
            let scope = p.files[i].package().to_string();
            for x in 0..2 {
                let mut b = msg(&format!("ZzBase{k}_{x}"), vec![]);
                for k in 0..if p.s.chance(1, 3) { p.s.below(6) as i32 } else { 0 } {
                    b.extension_range.push(descriptor_proto::ExtensionRange { start: Some(1000 + 10 * k), end: Some(1005 + 10 * k), options: None });
                }
                b.extension_range.push(descriptor_proto::ExtensionRange { start: Some(100), end: Some(200), options: None });
                p.files[i].message_type.push(b);
                for n in [100, 199] {
                    p.files[i].extension.push(FieldDescriptorProto {
                        extendee: Some(format!(".{}", join(&scope, &format!("ZzBase{k}_{x}")))),
                        ..fld(&format!("zz_x{k}_{x}_{n}"), n, Type::Int32)
                    });
                }
            }
        }
        3 => {
            // aliases
            let mut e = enm(&format!("ZzE{k}"), vec![val(&format!("ZZ{k}_A"), 0), val(&format!("ZZ{k}_B"), 5), val(&format!("ZZ{k}_C"), 5), val(&format!("ZZ{k}_D"), 0)]);
            e.options = Some(if p.s.flip() {
                let o = prost_types::UninterpretedOption { identifier_value: Some("true".into()), ..faults::unint(&[("allow_alias", false)]) };
                EnumOptions { uninterpreted_option: vec![o], ..Default::default() }
            } else {
                EnumOptions { allow_alias: Some(true), ..Default::default() }
            });
            p.files[i].enum_type.push(e);
        }
        4 => {
            // next to a reserved range
            let (a, b) = *p.s.pick(&[(5, 5), (4, 6), (-7, -6)]);
            let mut e = enm(&format!("ZzE{k}"), vec![val(&format!("ZZ{k}_A"), 0), val(&format!("ZZ{k}_B"), a - 1), val(&format!("ZZ{k}_C"), b + 1)]);
            e.reserved_range.push(enum_descriptor_proto::EnumReservedRange { start: Some(a), end: Some(b) });
            e.reserved_name.push(format!("ZZ{k}_D"));
            p.files[i].enum_type.push(e);
        }
        5 => {
            // the same names in different scopes
            let d = msg_mut(&mut p.files, &site);
            let deep = msg("ZzDeep", vec![fld("a", 1, Type::Int32)]);
            let inner = DescriptorProto { nested_type: vec![deep.clone()], enum_type: vec![enm("ZzKind", vec![val("ZZ_V", 0)])], ..deep.clone() };
            let outer = DescriptorProto { name: Some(format!("ZzOut{k}")), nested_type: vec![inner], enum_type: vec![enm("ZzKind", vec![val("ZZ_V", 0)])], ..deep };
            d.nested_type.push(outer);
        }
        6 => {
            // the same method names in two services
            for x in 0..2 {
                let t = Some(format!(".{}", site.full));
                let m = |n: &str| MethodDescriptorProto { name: Some(n.into()), input_type: t.clone(), output_type: t.clone(), ..Default::default() };
                p.files[i].service.push(ServiceDescriptorProto { name: Some(format!("ZzS{k}_{x}")), method: vec![m("A"), m("a"), m("B")], options: None });
            }
        }
        7 if !proto3 => {
            let d = msg_mut(&mut p.files, &site);
            let mut n = 60;
            for (t, v) in [
                (Type::Int32, "2147483647"), (Type::Int32, "-2147483648"), (Type::Uint32, "4294967295"), (Type::Int64, "-9223372036854775808"),
                (Type::Uint64, "18446744073709551615"), (Type::Sint32, "0"), (Type::Bool, "false"), (Type::Double, "nan"), (Type::Double, "-inf"),
                (Type::Float, "1e10"), (Type::Float, "-0.5"), (Type::Bytes, ""), (Type::Bytes, "\\000\\377\\x41\\n\\\"\\'\\\\"), (Type::String, "\\q"), (Type::String, ""),
            ] {
                if !p.s.chance(1, 4) {
                    continue;
                }
                n += 1;
                while d.field.iter().any(|f| f.number() == n) || d.reserved_range.iter().any(|r| r.start() <= n && n < r.end()) || in_ext(n) {
                    n += 1;
                }
                d.field.push(FieldDescriptorProto { default_value: Some(v.into()), ..fld(&format!("zzd{k}_{n}"), n, t) });
            }
        }
        8 => {
            // distinct names with some similarity
            let mut names = vec![("qq_{}", None), ("qq_x{}", None), ("qqX{}y", None)];
            if !proto3 {
                // a conflict with a derived JSON name is no error in proto2
                let j = *p.s.pick(&[None, Some("qqA{}"), Some("qqSame{}")]);
                names.push(("qq_same{}", j));
                names.push(("qqSame{}", if j.is_none() || p.s.flip() { Some("qqSame{}") } else { None }));
            }
            for (name, json) in names {
                let n = free(&p.files, &site, 30);
                let f = |t: &str| t.replace("{}", &k.to_string());
                msg_mut(&mut p.files, &site).field.push(FieldDescriptorProto { json_name: json.map(f), ..fld(&f(name), n, Type::Int32) });
            }
        }
        9 => {
            // a package that others are inside of, and a definition beside it
            p.files.push(FileDescriptorProto {
                name: Some(format!("zz{k}.proto")),
                package: Some(format!("zzp.q{k}.r")),
                message_type: vec![msg("zzp", vec![]), msg("r", vec![rfld("a", 1, ".zzp.")]).clone()],
                ..Default::default()
            });
            let n = p.files.len() - 1;
            p.files[n].message_type[1].field[0].type_name = Some(format!(".zzp.q{k}.r.zzp"));
        }
        10 => {
            // an enum in proto2 need not begin with zero, and negative numbers are fine
            let first = if proto3 { 0 } else { *p.s.pick(&[7, -1, i32::MIN]) };
            p.files[i].enum_type.push(enm(&format!("ZzE{k}"), vec![val(&format!("ZZ{k}_A"), first), val(&format!("ZZ{k}_B"), i32::MAX), val(&format!("ZZ{k}_C"), -5)]));
        }
        11 => {
            // every kind of map key
            for (x, t) in [Type::Int32, Type::Int64, Type::Uint32, Type::Uint64, Type::Sint32, Type::Sint64, Type::Fixed32, Type::Fixed64, Type::Sfixed32, Type::Sfixed64, Type::Bool, Type::String].into_iter().enumerate() {
                if !p.s.chance(1, 4) {
                    continue;
                }
                let n = free(&p.files, &site, 40);
                let d = msg_mut(&mut p.files, &site);
                let mut e = msg(&format!("ZzMap{k}T{x}Entry"), vec![fld("key", 1, t), rfld("value", 2, &format!(".{}", site.full))]);
                e.options = Some(MessageOptions { map_entry: Some(true), ..Default::default() });
                d.nested_type.push(e);
                let mut f = rfld(&format!("zz_map{k}_t{x}"), n, &format!(".{}.ZzMap{k}T{x}Entry", site.full));
                f.label = Some(Label::Repeated as i32);
                f.r#type = Some(Type::Message as i32);
                d.field.push(f);
            }
        }
        _ => {
            // names with underscores and digits everywhere
            let n = free(&p.files, &site, 30);
            msg_mut(&mut p.files, &site).field.push(fld(&format!("_9{k}_Z"), n, Type::Int32));
            p.files[i].message_type.push(msg(&format!("_{k}"), vec![]));
        }
    }
}
