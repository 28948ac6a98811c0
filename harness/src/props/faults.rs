//! Single faults planted in valid files (C19, C20).

use crate::desc::join;
use crate::src::Src;
use prost_types::field_descriptor_proto::{Label, Type};
use prost_types::{
    descriptor_proto, enum_descriptor_proto, DescriptorProto, EnumDescriptorProto, EnumOptions, EnumValueDescriptorProto, FieldDescriptorProto,
    FieldOptions, FileDescriptorProto, MessageOptions, MethodDescriptorProto, OneofDescriptorProto, ServiceDescriptorProto,
};

/// A message somewhere in the files.
#[derive(Clone, Debug)]
pub struct Site { pub file: usize, pub idx: Vec<usize>, pub full: String, pub entry: bool, pub proto3: bool }
impl Site {
    pub fn path(&self) -> Vec<i32> {
        let mut p = vec![];
        for (i, x) in self.idx.iter().enumerate() {
            p.extend([if i == 0 { 4 } else { 3 }, *x as i32]);
        }
        p
    }
}
fn walk(m: &DescriptorProto, scope: &str, s: Site, out: &mut Vec<Site>) {
    let full = join(scope, m.name());
    for (i, n) in m.nested_type.iter().enumerate() {
        let mut c = s.clone();
        c.idx.push(i);
        walk(n, &full, c, out);
    }
    out.push(Site { full, entry: m.options.as_ref().map_or(false, |o| o.map_entry()), ..s });
}
pub fn sites(files: &[FileDescriptorProto]) -> Vec<Site> {
    let mut out = vec![];
    for (i, f) in files.iter().enumerate() {
        for (j, m) in f.message_type.iter().enumerate() {
            walk(m, f.package(), Site { file: i, idx: vec![j], full: String::new(), entry: false, proto3: f.syntax() == "proto3" }, &mut out);
        }
    }
    out
}
pub fn msg_mut<'a>(files: &'a mut [FileDescriptorProto], s: &Site) -> &'a mut DescriptorProto {
    let mut m = &mut files[s.file].message_type[s.idx[0]];
    for &i in &s.idx[1..] {
        m = &mut m.nested_type[i];
    }
    m
}
pub fn fld(name: &str, number: i32, ty: Type) -> FieldDescriptorProto {
    FieldDescriptorProto { name: Some(name.into()), number: Some(number), label: Some(Label::Optional as i32), r#type: Some(ty as i32), ..Default::default() }
}
pub fn rfld(name: &str, number: i32, target: &str) -> FieldDescriptorProto {
    FieldDescriptorProto { name: Some(name.into()), number: Some(number), label: Some(Label::Optional as i32), type_name: Some(target.into()), ..Default::default() }
}
pub fn val(name: &str, number: i32) -> EnumValueDescriptorProto {
    EnumValueDescriptorProto { name: Some(name.into()), number: Some(number), options: None }
}
pub fn enm(name: &str, values: Vec<EnumValueDescriptorProto>) -> EnumDescriptorProto {
    EnumDescriptorProto { name: Some(name.into()), value: values, ..Default::default() }
}
pub fn msg(name: &str, field: Vec<FieldDescriptorProto>) -> DescriptorProto {
    DescriptorProto { name: Some(name.into()), field, ..Default::default() }
}

pub struct Faults<'a> {
    pub s: &'a mut Src,
    pub files: Vec<FileDescriptorProto>,
    /// where the error may be reported
    pub at: Vec<(String, Vec<i32>)>,
    pub kind: String,
    /// the error carries no position
    pub none: bool,
    /// files [0, n) exist already and stay as they are
    pub first: usize,
}

const BAD_NAMES: [&str; 13] = ["abcdefghijklmnopqrstuvwxyz_0123456789-", "abcdefghijklmnopqrstuvwxyz_0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz.x", "\u{17f}x", "a-b", "", "a.b", "\u{e9}", "a b", ".a", "a.", "a$", "\u{ff10}", "a\n"];
const BAD_PACKAGES: [&str; 8] = ["a.b.c.d.e.f.g.h-", "a..b", ".a", "a.", "a.b-c", ".", "a b", "a.\u{e9}"];

impl Faults<'_> {
    /// a message whose definition may be changed
    fn site(&mut self) -> Option<Site> {
        let v: Vec<Site> = sites(&self.files).into_iter().filter(|s| !s.entry && self.ok(s.file)).collect();
        if v.is_empty() { None } else { Some(self.s.pick(&v).clone()) }
    }
    fn ok(&self, i: usize) -> bool {
        i >= self.first && self.files[i].package() != "google.protobuf"
    }
    fn file(&mut self) -> Option<usize> {
        let v: Vec<usize> = (0..self.files.len()).filter(|&i| self.ok(i)).collect();
        if v.is_empty() { None } else { Some(*self.s.pick(&v)) }
    }
    fn mark(&mut self, file: usize, path: Vec<i32>) {
        self.at.push((self.files[file].name().to_string(), path));
    }
    fn free(&mut self, s: &Site) -> i32 {
        let m = msg_mut(&mut self.files, s).clone();
        let mut n = *self.s.pick(&[1i32, 2, 12, 15, 16, 60, 2047, 4000]);
        let free = |n: i32| {
            m.field.iter().all(|f| f.number() != n)
                && m.reserved_range.iter().all(|r| n < r.start() || n >= r.end())
                && m.extension_range.iter().all(|r| n < r.start() || n >= r.end())
                && !(19000..20000).contains(&n)
        };
        while !free(n) {
            n += 1;
        }
        n
    }
    fn add_field(&mut self, s: &Site, f: FieldDescriptorProto) -> Vec<i32> {
        let m = msg_mut(&mut self.files, s);
        m.field.push(f);
        let mut p = s.path();
        p.extend([2, m.field.len() as i32 - 1]);
        let file = s.file;
        self.mark(file, p.clone());
        p
    }
    /// an enum at file or message level
    fn add_enum(&mut self, e: EnumDescriptorProto) -> Option<()> {
        let (file, p) = if self.s.flip() {
            let s = self.site()?;
            let m = msg_mut(&mut self.files, &s);
            m.enum_type.push(e);
            (s.file, [s.path(), vec![4, m.enum_type.len() as i32 - 1]].concat())
        } else {
            let i = self.file()?;
            self.files[i].enum_type.push(e);
            (i, vec![5, self.files[i].enum_type.len() as i32 - 1])
        };
        self.mark(file, p);
        Some(())
    }
    fn add_enum_in(&mut self, i: usize, e: EnumDescriptorProto) {
        self.files[i].enum_type.push(e);
        let n = self.files[i].enum_type.len() as i32 - 1;
        self.mark(i, vec![5, n]);
    }
    fn add_msg_in(&mut self, i: usize, m: DescriptorProto) -> String {
        let full = join(self.files[i].package(), m.name());
        self.files[i].message_type.push(m);
        let n = self.files[i].message_type.len() as i32 - 1;
        self.mark(i, vec![4, n]);
        full
    }
    fn add_ext(&mut self, i: usize, x: FieldDescriptorProto) {
        let nest: Vec<Site> = sites(&self.files).into_iter().filter(|s| s.file == i && !s.entry).collect();
        if !nest.is_empty() && self.s.flip() {
            let s = self.s.pick(&nest).clone();
            let m = msg_mut(&mut self.files, &s);
            m.extension.push(x);
            let p = [s.path(), vec![6, m.extension.len() as i32 - 1]].concat();
            self.mark(i, p);
        } else {
            self.files[i].extension.push(x);
            let n = self.files[i].extension.len() as i32 - 1;
            self.mark(i, vec![7, n]);
        }
    }
    fn proto2_file(&mut self) -> Option<usize> {
        let v: Vec<usize> = (0..self.files.len()).filter(|&i| self.ok(i) && self.files[i].syntax() != "proto3").collect();
        if v.is_empty() { None } else { Some(*self.s.pick(&v)) }
    }
    /// an extendable message in file i, that is not a place for errors
    fn extendable(&mut self, i: usize) -> String {
        let mut m = msg("ZzBase", vec![]);
        if self.s.chance(1, 3) {
            for k in 0..self.s.below(7) as i32 {
                m.extension_range.push(descriptor_proto::ExtensionRange { start: Some(1000 + 10 * k), end: Some(1005 + 10 * k), options: None });
            }
        }
        m.extension_range.push(descriptor_proto::ExtensionRange { start: Some(100), end: Some(200), options: None });
        m.extension_range.push(descriptor_proto::ExtensionRange { start: Some(300), end: Some(301), options: None });
        let n = format!(".{}", self.add_msg_in(i, m));
        self.at.pop();
        n
    }
    fn ext(name: &str, number: i32, extendee: &str) -> FieldDescriptorProto {
        FieldDescriptorProto { extendee: Some(extendee.into()), ..fld(name, number, Type::Int32) }
    }
    fn add_service(&mut self, i: usize, s: ServiceDescriptorProto) {
        self.files[i].service.push(s);
        let n = self.files[i].service.len() as i32 - 1;
        self.mark(i, vec![6, n]);
    }
    fn scope_of(&mut self, i: usize) -> String {
        self.files[i].package().to_string()
    }

    /// Plants one fault. None if there is no place for it.
    pub fn plant(&mut self) -> Option<()> {
        let k = self.s.below(N_FAULTS);
        self.kind = String::new();
        self.plant_kind(k)
    }
    fn is(&mut self, k: &str) {
        self.kind = k.to_string();
    }
    pub fn plant_kind(&mut self, k: u64) -> Option<()> {
        match k {
            0 => {
                self.is("duplicate definition in a message");
                let s = self.site()?;
                let kinds = [self.s.below(6), self.s.below(6)];
                let mut num = self.free(&s);
                for k in kinds {
                    let m = msg_mut(&mut self.files, &s);
                    let p = match k {
                        0 => {
                            m.nested_type.push(msg("zz", vec![]));
                            [3, m.nested_type.len() as i32 - 1]
                        }
                        1 => {
                            m.enum_type.push(enm("zz", vec![val(&format!("ZZV{}", m.enum_type.len()), 0)]));
                            [4, m.enum_type.len() as i32 - 1]
                        }
                        2 => {
                            m.enum_type.push(enm(&format!("ZZE{}", m.enum_type.len()), vec![val("zz", 0)]));
                            [4, m.enum_type.len() as i32 - 1]
                        }
                        3 => {
                            let mut f = fld("zz", num, Type::Bool);
                            f.json_name = Some(format!("zzjson{num}"));
                            m.field.push(f);
                            [2, m.field.len() as i32 - 1]
                        }
                        _ => {
                            m.oneof_decl.push(OneofDescriptorProto { name: Some("zz".into()), options: None });
                            let o = m.oneof_decl.len() as i32 - 1;
                            let mut f = fld(&format!("zzf{o}"), num, Type::Bool);
                            f.oneof_index = Some(o);
                            m.field.push(f);
                            [8, o]
                        }
                    };
                    let p = [s.path(), p.to_vec()].concat();
                    let f = s.file;
                    self.mark(f, p);
                    num = self.free(&s);
                }
            }
            1 => {
                self.is("duplicate definition in a package");
                let i = self.file()?;
                // another file of the same package, if there is one
                let same: Vec<usize> = (0..self.files.len()).filter(|&j| self.ok(j) && self.files[j].package() == self.files[i].package()).collect();
                let j = *self.s.pick(&same);
                for (n, x) in [i, j].into_iter().enumerate() {
                    let p = match self.s.below(4) {
                        0 => {
                            self.files[x].message_type.push(msg("zz", vec![]));
                            [4, self.files[x].message_type.len() as i32 - 1]
                        }
                        1 => {
                            self.files[x].enum_type.push(enm("zz", vec![val(&format!("ZZV{n}"), 0)]));
                            [5, self.files[x].enum_type.len() as i32 - 1]
                        }
                        2 => {
                            self.files[x].enum_type.push(enm(&format!("ZZE{n}"), vec![val("zz", 0)]));
                            [5, self.files[x].enum_type.len() as i32 - 1]
                        }
                        _ => {
                            self.files[x].service.push(ServiceDescriptorProto { name: Some("zz".into()), ..Default::default() });
                            [6, self.files[x].service.len() as i32 - 1]
                        }
                    };
                    self.mark(x, p.to_vec());
                }
            }
            2 => {
                self.is("definition with the name of a package");
                let i = self.file()?;
                let mut p = self.files[i].package().to_string();
                if self.s.chance(1, 6) {
                    // a package of many names
                    let n = 4 + self.s.us(5);
                    p = (0..n).map(|k| format!("zzq{k}")).collect::<Vec<_>>().join(".");
                    self.files.push(FileDescriptorProto { name: Some("zz_deep.proto".into()), package: Some(p.clone()), ..Default::default() });
                }
                if p.is_empty() {
                    return None;
                }
                let parts: Vec<&str> = p.split('.').collect();
                let n = self.s.us(parts.len());
                let outer = parts[..n].join(".");
                let extra = FileDescriptorProto {
                    name: Some("zz_outer.proto".into()),
                    package: if n == 0 { None } else { Some(outer) },
                    ..Default::default()
                };
                let mut extra = extra;
                match self.s.below(5) {
                    0 | 1 => extra.message_type = vec![msg(parts[n], vec![])],
                    2 => extra.enum_type = vec![enm(parts[n], vec![val("ZZ_V", 0)])],
                    3 => extra.enum_type = vec![enm("ZzE", vec![val(parts[n], 0)])],
                    _ => extra.service = vec![ServiceDescriptorProto { name: Some(parts[n].into()), ..Default::default() }],
                }
                let at = self.first + self.s.us(self.files.len() - self.first + 1);
                self.files.insert(at, extra);
                for k in self.first..self.files.len() {
                    self.mark(k, vec![]);
                }
            }
            3 => {
                self.is("duplicate method");
                let i = self.file()?;
                let t = self.site()?;
                let f = t.file;
                let i = if self.s.flip() { i } else { f };
                let t = format!(".{}", if i == f { t.full } else { sites(&self.files).into_iter().find(|s| s.file == i && !s.entry)?.full });
                let m = |n: &str| MethodDescriptorProto { name: Some(n.into()), input_type: Some(t.clone()), output_type: Some(t.clone()), ..Default::default() };
                self.add_service(i, ServiceDescriptorProto { name: Some("ZzSvc".into()), method: vec![m("A"), m("B"), m("A")], options: None });
            }
            4 => {
                self.is("missing or ill-formed name");
                let bad = if self.s.chance(1, 4) { None } else { Some(self.s.pick(&BAD_NAMES).to_string()) };
                match self.s.below(8) {
                    0 => {
                        let s = self.site()?;
                        let n = self.free(&s);
                        self.add_field(&s, FieldDescriptorProto { name: bad, ..fld("", n, Type::Int32) });
                    }
                    1 => {
                        let i = self.file()?;
                        self.add_msg_in(i, DescriptorProto { name: bad, ..Default::default() });
                    }
                    2 => {
                        let s = self.site()?;
                        let m = msg_mut(&mut self.files, &s);
                        m.nested_type.push(DescriptorProto { name: bad, ..Default::default() });
                        let p = [s.path(), vec![3, m.nested_type.len() as i32 - 1]].concat();
                        self.mark(s.file, p);
                    }
                    3 => self.add_enum(EnumDescriptorProto { name: bad, value: vec![val("ZZ_V", 0)], ..Default::default() })?,
                    4 => self.add_enum(enm("ZzE", vec![val("ZZ_V", 0), EnumValueDescriptorProto { name: bad, number: Some(1), options: None }]))?,
                    5 => {
                        let i = self.file()?;
                        self.add_service(i, ServiceDescriptorProto { name: bad, ..Default::default() });
                    }
                    6 => {
                        let s = self.site()?;
                        let n = self.free(&s);
                        let m = msg_mut(&mut self.files, &s);
                        m.oneof_decl.push(OneofDescriptorProto { name: bad, options: None });
                        let o = m.oneof_decl.len() as i32 - 1;
                        m.field.push(FieldDescriptorProto { oneof_index: Some(o), ..fld("zzf", n, Type::Int32) });
                        let p = [s.path(), vec![8, o]].concat();
                        self.mark(s.file, p);
                    }
                    _ => {
                        let i = self.proto2_file()?;
                        let b = self.extendable(i);
                        self.add_ext(i, FieldDescriptorProto { name: bad, ..Self::ext("", 100, &b) });
                    }
                }
            }
            5 => {
                self.is("ill-formed package");
                let p = self.s.pick(&BAD_PACKAGES).to_string();
                self.files.push(FileDescriptorProto { name: Some("zz.proto".into()), package: Some(p), ..Default::default() });
                let i = self.files.len() - 1;
                self.mark(i, vec![]);
            }
            6 => {
                self.is("duplicate field number");
                let s = self.site()?;
                let m = msg_mut(&mut self.files, &s).clone();
                let n = if !m.field.is_empty() && self.s.flip() { self.s.pick(&m.field).number() } else {
                    let n = self.free(&s);
                    self.add_field(&s, fld("zza", n, Type::String));
                    n
                };
                self.at.clear();
                self.mark(s.file, s.path());
                self.add_field(&s, fld("zzb", n, Type::String));
            }
            7 => {
                self.is("field number out of range");
                let s = self.site()?;
                let n = *self.s.pick(&[0, -1, i32::MIN, i32::MAX, 536_870_912, 19000, 19999, 19500]);
                let mut f = fld("zzb", n, Type::String);
                if n == 0 && self.s.flip() {
                    f.number = None;
                }
                // not also in conflict with an extension range
                let m = msg_mut(&mut self.files, &s);
                if m.extension_range.iter().any(|r| r.start() <= n && n < r.end()) {
                    return None;
                }
                self.add_field(&s, f);
            }
            8 => {
                self.is("reserved field number");
                let s = self.site()?;
                let n = self.free(&s);
                let m = msg_mut(&mut self.files, &s);
                let w = 1 + self.s.below(3) as i32;
                let off = self.s.below(w as u64) as i32;
                if n - off < 1 || (n - off..n - off + w).any(|x| m.field.iter().any(|f| f.number() == x) || m.extension_range.iter().any(|r| r.start() <= x && x < r.end()) || m.reserved_range.iter().any(|r| r.start() <= x && x < r.end())) {
                    return None;
                }
                if self.s.chance(1, 3) {
                    for k in 0..self.s.below(7) as i32 {
                        let a = 536_000_000 + 10 * k;
                        if !m.extension_range.iter().any(|r| a + 5 > r.start() && a < r.end()) && m.field.iter().all(|f| f.number() < a) {
                            m.reserved_range.push(descriptor_proto::ReservedRange { start: Some(a), end: Some(a + 5) });
                        }
                    }
                }
                m.reserved_range.push(descriptor_proto::ReservedRange { start: Some(n - off), end: Some(n - off + w) });
                self.add_field(&s, fld("zzb", n, Type::String));
            }
            9 => {
                self.is("field number in an extension range");
                let s = self.site()?;
                if s.proto3 {
                    return None;
                }
                let n = self.free(&s);
                let m = msg_mut(&mut self.files, &s);
                if m.reserved_range.iter().any(|r| r.start() <= n + 1 && n + 1 < r.end()) || m.field.iter().any(|f| f.number() == n + 1) {
                    return None;
                }
                if self.s.chance(1, 3) {
                    for k in 0..self.s.below(7) as i32 {
                        let a = 536_000_000 + 10 * k;
                        if !m.reserved_range.iter().chain([].iter()).any(|r| a + 5 > r.start() && a < r.end()) && !m.extension_range.iter().any(|r| a + 5 > r.start() && a < r.end()) && m.field.iter().all(|f| f.number() < a) {
                            m.extension_range.push(descriptor_proto::ExtensionRange { start: Some(a), end: Some(a + 5), options: None });
                        }
                    }
                }
                m.extension_range.push(descriptor_proto::ExtensionRange { start: Some(n), end: Some(n + 1 + self.s.below(2) as i32), options: None });
                let mut f = fld("zzb", n, Type::String);
                if self.s.chance(1, 4) {
                    // which does not make it an extension
                    f.extendee = Some(format!(".{}", s.full));
                }
                self.add_field(&s, f);
            }
            10 => {
                self.is("conflicting JSON names");
                let s = self.site()?;
                let n = self.free(&s);
                // (in proto2, only if both names are chosen)
                let j = Some("zzCustom".to_string());
                let (a, ja, b, jb) = match self.s.below(if s.proto3 { 3 } else { 1 }) {
                    0 => ("zz_a", j.clone(), "zz_b", j),
                    1 => ("zz_custom", None, "zz_other", j),
                    _ => ("zz_other", j, "zz_custom", None),
                };
                self.add_field(&s, FieldDescriptorProto { json_name: ja, ..fld(a, n, Type::Int64) });
                let n = self.free(&s);
                self.add_field(&s, FieldDescriptorProto { json_name: jb, ..fld(b, n, Type::Int64) });
            }
            11 => {
                self.is("unresolved type");
                let s = self.site()?;
                let n = self.free(&s);
                let t = self.s.pick(&["zz.Nope", ".zz.Nope", "Zz_Nope", ".Zz_Nope", ".", "", "a..b"]).to_string();
                let mut f = rfld("zzb", n, &t);
                if t.is_empty() || self.s.flip() {
                    f.r#type = Some(*self.s.pick(&[Type::Message as i32, Type::Enum as i32]));
                }
                self.add_field(&s, f);
            }
            12 => {
                self.is("type of the wrong sort");
                let s = self.site()?;
                let n = self.free(&s);
                let i = s.file;
                let kind = self.s.below(6);
                let name = match kind {
                    0 => {
                        self.add_service(i, ServiceDescriptorProto { name: Some("ZzSvc".into()), ..Default::default() });
                        join(&self.scope_of(i), "ZzSvc")
                    }
                    1 => {
                        self.add_enum_in(i, enm("ZzE", vec![val("ZZ_V", 0)]));
                        join(&self.scope_of(i), "ZZ_V")
                    }
                    2 => {
                        self.add_field(&s, fld("zza", n, Type::Int32));
                        format!("{}.zza", s.full)
                    }
                    3 => {
                        let p = self.scope_of(i);
                        if p.is_empty() {
                            return None;
                        }
                        p
                    }
                    4 => {
                        let m = msg_mut(&mut self.files, &s).clone();
                        if m.oneof_decl.is_empty() {
                            return None;
                        }
                        format!("{}.{}", s.full, m.oneof_decl[0].name())
                    }
                    _ => {
                        let i = self.proto2_file()?;
                        if i != s.file {
                            return None;
                        }
                        let b = self.extendable(i);
                        self.files[i].extension.push(Self::ext("zz_ext", 100, &b));
                        join(&self.scope_of(i), "zz_ext")
                    }
                };
                self.at.clear();
                let n = self.free(&s);
                self.add_field(&s, rfld("zzb", n, &format!(".{name}")));
            }
            13 => {
                self.is("type from a file that is not imported");
                let s = self.site()?;
                let i = s.file;
                let t = crate::desc::Table::new(&self.files);
                let hidden: Vec<String> = sites(&self.files).into_iter().filter(|o| !o.entry && !t.vis[i].contains(&o.file)).map(|o| o.full).collect();
                if hidden.is_empty() {
                    return None;
                }
                let h = self.s.pick(&hidden).clone();
                let n = self.free(&s);
                self.add_field(&s, rfld("zzb", n, &format!(".{h}")));
            }
            14 => {
                self.is("missing import");
                let i = self.file()?;
                self.files[i].dependency.push("zz/nope.proto".into());
                let n = self.files[i].dependency.len() as i32 - 1;
                self.mark(i, vec![3, n]);
            }
            15 => {
                self.is("bad import index");
                let i = self.file()?;
                let n = self.files[i].dependency.len() as i32;
                let bad = *self.s.pick(&[n, n + 1, -1, i32::MAX, i32::MIN]);
                if self.s.flip() {
                    self.files[i].public_dependency.push(bad);
                } else {
                    self.files[i].weak_dependency.push(bad);
                }
                self.none = true;
            }
            16 => {
                self.is("unknown syntax");
                let i = self.file()?;
                if self.files[i].syntax() == "proto3" {
                    return None;
                }
                self.files[i].syntax = Some(self.s.pick(&["proto4", "proto", "PROTO2", "editions", "proto2 "]).to_string());
                self.mark(i, vec![12]);
            }
            17 => {
                self.is("extension number outside the ranges");
                let i = self.proto2_file()?;
                let b = self.extendable(i);
                let mut n = *self.s.pick(&[99, 200, 250, 299, 301, 1, 0, -1, 536_870_912, 19000, i32::MAX]);
                if self.s.chance(1, 4) {
                    // numbers that nothing may have, though a range includes them
                    n = *self.s.pick(&[19000, 19500, 19999]);
                    self.files[i].message_type.last_mut().unwrap().extension_range.push(descriptor_proto::ExtensionRange { start: Some(18000), end: Some(21000), options: None });
                }
                self.add_ext(i, Self::ext("zz_ext", n, &b));
            }
            18 => {
                self.is("extension number used twice");
                let i = self.proto2_file()?;
                let b = self.extendable(i);
                let n = *self.s.pick(&[100, 150, 199, 300]);
                self.add_ext(i, Self::ext("zz_ext1", n, &b));
                if self.s.chance(1, 3) {
                    let at = self.at.clone();
                    for k in 0..self.s.below(8) as i32 {
                        self.add_ext(i, Self::ext(&format!("zz_more{k}"), 101 + k, &b));
                    }
                    self.at = at;
                }
                // possibly from a file that imports the first one
                if self.s.flip() {
                    let name = self.files[i].name().to_string();
                    self.files.push(FileDescriptorProto { name: Some("zz2.proto".into()), dependency: vec![name], extension: vec![Self::ext("zz_ext2", n, &b)], ..Default::default() });
                    let f = self.files.len() - 1;
                    self.mark(f, vec![7, 0]);
                } else {
                    self.add_ext(i, Self::ext("zz_ext2", n, &b));
                }
            }
            19 => {
                self.is("bad extendee");
                let i = self.proto2_file()?;
                let b = match self.s.below(4) {
                    0 => ".zz.Nope".to_string(),
                    1 => "Zz_nope".to_string(),
                    2 => String::new(),
                    _ => {
                        self.files[i].enum_type.push(enm("ZzE", vec![val("ZZ_V", 0)]));
                        format!(".{}", join(&self.scope_of(i), "ZzE"))
                    }
                };
                let mut x = Self::ext("zz_ext", 100, &b);
                if b.is_empty() && self.s.flip() {
                    x.extendee = None;
                }
                self.add_ext(i, x);
            }
            20 => {
                self.is("bad oneof index");
                let s = self.site()?;
                let n = self.free(&s);
                let len = msg_mut(&mut self.files, &s).oneof_decl.len() as i32;
                let o = *self.s.pick(&[len, len + 1, -1, i32::MIN, i32::MAX]);
                self.add_field(&s, FieldDescriptorProto { oneof_index: Some(o), ..fld("zzb", n, Type::Int32) });
                self.none = true;
            }
            21 => {
                self.is("bad default value");
                let (t, d): (Type, &str) = *self.s.pick(&[
                    (Type::Int32, "2147483648"), (Type::Int32, "-2147483649"), (Type::Int32, "1.5"), (Type::Int32, ""), (Type::Int32, "x"), (Type::Int32, "true"),
                    (Type::Sint32, "2147483648"), (Type::Sfixed32, "3000000000"), (Type::Uint32, "-1"), (Type::Uint32, "4294967296"), (Type::Fixed32, "4294967296"),
                    (Type::Int64, "9223372036854775808"), (Type::Sint64, "-9223372036854775809"), (Type::Sfixed64, "abc"), (Type::Uint64, "18446744073709551616"),
                    (Type::Fixed64, "-1"), (Type::Bool, "1"), (Type::Bool, "True"), (Type::Bool, ""), (Type::Float, "abc"), (Type::Double, ""), (Type::Double, "1.5x"),
                    (Type::Bytes, "\\"), (Type::Bytes, "\\q"),
                ]);
                if self.s.flip() {
                    let v: Vec<Site> = sites(&self.files).into_iter().filter(|s| !s.entry && !s.proto3 && self.ok(s.file)).collect();
                    if v.is_empty() {
                        return None;
                    }
                    let s = self.s.pick(&v).clone();
                    let n = self.free(&s);
                    self.add_field(&s, FieldDescriptorProto { default_value: Some(d.into()), ..fld("zzb", n, t) });
                } else {
                    let i = self.proto2_file()?;
                    let b = self.extendable(i);
                    self.add_ext(i, FieldDescriptorProto { default_value: Some(d.into()), ..Self::ext("zz_ext", 100, &b) });
                    let x = self.files[i].extension.last_mut().filter(|x| x.name() == "zz_ext");
                    match x {
                        Some(x) => x.r#type = Some(t as i32),
                        None => return None,
                    }
                }
            }
            22 => {
                self.is("bad enum or message default");
                let v: Vec<Site> = sites(&self.files).into_iter().filter(|s| !s.entry && !s.proto3 && self.ok(s.file)).collect();
                if v.is_empty() {
                    return None;
                }
                let s = self.s.pick(&v).clone();
                let n = self.free(&s);
                let i = s.file;
                let p = self.scope_of(i);
                let (t, d) = match self.s.below(4) {
                    0 => {
                        self.add_enum_in(i, enm("ZzE", vec![val("ZZ_V", 0), val("ZZ_W", 5)]));
                        (join(&p, "ZzE"), *self.s.pick(&["ZZ_X", "5", "0", "", "zz_v", "ZzE.ZZ_V"]))
                    }
                    1 => (s.full.clone(), ""),
                    2 => (s.full.clone(), "x"),
                    _ => (s.full.clone(), "{}"),
                };
                self.at.clear();
                self.add_field(&s, FieldDescriptorProto { default_value: Some(d.into()), ..rfld("zzb", n, &format!(".{t}")) });
            }
            23 => {
                self.is("empty enum");
                self.add_enum(enm("ZzE", vec![]))?;
            }
            24 => {
                self.is("proto3 enum not starting at zero");
                let v: Vec<usize> = (0..self.files.len()).filter(|&i| self.ok(i) && self.files[i].syntax() == "proto3").collect();
                if v.is_empty() {
                    return None;
                }
                let i = *self.s.pick(&v);
                let n = *self.s.pick(&[1, -1, i32::MAX, i32::MIN]);
                self.add_enum_in(i, enm("ZzE", vec![val("ZZ_V", n), val("ZZ_W", 0)]));
            }
            25 => {
                self.is("enum number used twice");
                let n = *self.s.pick(&[0, 1, -1, i32::MAX, i32::MIN]);
                let mut e = enm("ZzE", vec![val("ZZ_0", 0), val("ZZ_1", n), val("ZZ_2", if n == 0 { 3 } else { n })]);
                if self.s.chance(1, 3) {
                    let o = prost_types::UninterpretedOption { identifier_value: Some("false".into()), ..unint(&[("allow_alias", false)]) };
                    e.options = Some(EnumOptions { uninterpreted_option: vec![o], ..Default::default() });
                } else if self.s.flip() {
                    e.options = Some(EnumOptions { allow_alias: Some(false), ..Default::default() });
                } else if self.s.flip() {
                    e.options = Some(EnumOptions { deprecated: Some(true), ..Default::default() });
                }
                if e.options.is_none() && self.s.flip() {
                    // an option of another sort with the same name
                    let i = self.file()?;
                    let d = prost_reflect::DescriptorPool::global().get_file_by_name("google/protobuf/descriptor.proto").unwrap().file_descriptor_proto().clone();
                    let have = self.files.iter().any(|f| f.name() == d.name());
                    if self.files[i].syntax() != "proto3" && !have {
                        self.files[i].extension.push(FieldDescriptorProto { extendee: Some(".google.protobuf.EnumOptions".into()), ..fld("allow_alias", 50000, Type::Bool) });
                        self.files[i].dependency.push(d.name().into());
                        let o = prost_types::UninterpretedOption { identifier_value: Some("true".into()), positive_int_value: None, ..unint(&[("allow_alias", true)]) };
                        e.options = Some(EnumOptions { uninterpreted_option: vec![o], ..Default::default() });
                        self.add_enum_in(i, e);
                        self.files.insert(self.first, d);
                        return Some(());
                    }
                }
                self.add_enum(e)?;
            }
            26 => {
                self.is("reserved enum number");
                let (a, b) = *self.s.pick(&[(5, 5), (4, 6), (-1, -1), (5, i32::MAX), (i32::MIN, -1), (1, 1)]);
                let n = *self.s.pick(&[a, b]);
                let mut e = enm("ZzE", vec![val("ZZ_0", 0), val("ZZ_1", n)]);
                if self.s.chance(1, 3) && b < 1000 && a > -1000 {
                    for k in 0..self.s.below(5) as i32 {
                        let a = if self.s.flip() { 1000 + 10 * k } else { -1000 - 10 * k };
                        e.reserved_range.push(enum_descriptor_proto::EnumReservedRange { start: Some(a), end: Some(a + 3) });
                    }
                }
                e.reserved_range.push(enum_descriptor_proto::EnumReservedRange { start: Some(a), end: Some(b) });
                self.add_enum(e)?;
            }
            27 => {
                self.is("ill-formed map entry");
                let s = self.site()?;
                let n = self.free(&s);
                let mut e = msg("ZzMapEntry", vec![fld("key", 1, Type::String), fld("value", 2, Type::Int32)]);
                e.options = Some(MessageOptions { map_entry: Some(true), ..Default::default() });
                let mut f = rfld("zz_map", n, &format!(".{}.ZzMapEntry", s.full));
                f.r#type = Some(Type::Message as i32);
                f.label = Some(Label::Repeated as i32);
                match self.s.below(8) {
                    7 => {
                        let kind = format!("ZzKind{n}");
                        e.field[0].r#type = if self.s.flip() { None } else { Some(Type::Enum as i32) };
                        e.field[0].type_name = Some(format!(".{}.{kind}", s.full));
                        let m = msg_mut(&mut self.files, &s);
                        m.enum_type.push(enm(&kind, vec![val(&format!("ZZK_V{n}"), 0)]));
                    }
                    0 => e.field[0].r#type = Some(*self.s.pick(&[Type::Float, Type::Double, Type::Bytes]) as i32),
                    1 => {
                        e.field[0].r#type = None;
                        e.field[0].type_name = Some(format!(".{}", s.full));
                    }
                    2 => {
                        e.field.pop();
                    }
                    3 => {
                        e.field.remove(0);
                    }
                    4 => e.field[1].label = Some(Label::Repeated as i32),
                    5 => e.field[1].number = Some(3),
                    _ => e.field[0].label = Some(Label::Repeated as i32),
                }
                let m = msg_mut(&mut self.files, &s);
                m.nested_type.push(e);
                let p = [s.path(), vec![3, m.nested_type.len() as i32 - 1]].concat();
                self.mark(s.file, p);
                if !s.proto3 && self.s.chance(1, 4) {
                    let b = self.extendable(s.file);
                    self.add_ext(s.file, FieldDescriptorProto { name: Some("zz_ext".into()), number: Some(100), extendee: Some(b), ..f });
                } else {
                    self.add_field(&s, f);
                }
            }
            28 => {
                self.is("duplicate file name");
                let i = self.file()?;
                let mut f = FileDescriptorProto { name: Some(self.files[i].name().into()), ..Default::default() };
                f.message_type.push(msg("ZzOther", vec![]));
                self.files.push(f);
                self.none = true;
            }
            29 => {
                self.is("bad method type");
                let s = self.site()?;
                let i = s.file;
                self.files[i].enum_type.push(enm("ZzE", vec![val("ZZ_V", 0)]));
                let e = format!(".{}", join(&self.scope_of(i), "ZzE"));
                let good = Some(format!(".{}", s.full));
                let bad = match self.s.below(4) {
                    0 => Some(".zz.Nope".to_string()),
                    1 => Some("Zz_nope".to_string()),
                    2 => Some(e),
                    _ => None,
                };
                let out = self.s.flip();
                let (a, b) = if out { (good, bad) } else { (bad, good) };
                let m = MethodDescriptorProto { name: Some("M".into()), input_type: a, output_type: b, ..Default::default() };
                self.add_service(i, ServiceDescriptorProto { name: Some("ZzSvc".into()), method: vec![m], options: None });
                self.at.last_mut().unwrap().1.extend([2, 0, 2 + out as i32]);
            }
            30 => {
                self.is("duplicate field name");
                let s = self.site()?;
                let m = msg_mut(&mut self.files, &s).clone();
                if m.field.is_empty() {
                    return None;
                }
                let f = self.s.pick(&m.field).clone();
                let n = self.free(&s);
                self.mark(s.file, s.path());
                self.add_field(&s, FieldDescriptorProto { json_name: Some("zzjson".into()), ..fld(f.name(), n, Type::Int32) });
            }
            31 => {
                self.is("proto3 field names equal in camel case");
                let v: Vec<Site> = sites(&self.files).into_iter().filter(|s| !s.entry && s.proto3 && self.ok(s.file)).collect();
                if v.is_empty() {
                    return None;
                }
                let s = self.s.pick(&v).clone();
                let n = self.free(&s);
                let (a, b) = *self.s.pick(&[("zz_same", "zzSame"), ("zz_same", "zz__same"), ("zz_a_b", "zz_aB")]);
                self.add_field(&s, fld(a, n, Type::Int64));
                let n = self.free(&s);
                self.add_field(&s, fld(b, n, Type::Int64));
            }
            32 => {
                self.is("field of unknown type number");
                let s = self.site()?;
                let n = self.free(&s);
                let t = *self.s.pick(&[Type::Message, Type::Group, Type::Enum]);
                self.add_field(&s, fld("zzb", n, t));
            }
            33 => {
                self.is("unknown option");
                let s = self.site()?;
                let o = unint(&[("zz_no_such_option", false)]);
                match self.s.below(4) {
                    0 => {
                        let i = s.file;
                        self.files[i].options.get_or_insert_with(Default::default).uninterpreted_option.push(o);
                        self.mark(i, vec![8]);
                    }
                    1 => {
                        let m = msg_mut(&mut self.files, &s);
                        m.options.get_or_insert_with(Default::default).uninterpreted_option.push(o);
                        self.mark(s.file, s.path());
                    }
                    2 => {
                        let n = self.free(&s);
                        let f = FieldDescriptorProto { options: Some(FieldOptions { uninterpreted_option: vec![o], ..Default::default() }), ..fld("zzb", n, Type::Int32) };
                        self.add_field(&s, f);
                    }
                    _ => self.add_enum(EnumDescriptorProto { options: Some(EnumOptions { uninterpreted_option: vec![o], ..Default::default() }), ..enm("ZzE", vec![val("ZZ_V", 0)]) })?,
                }
            }
            _ => unreachable!(),
        }
        Some(())
    }
}
pub const N_FAULTS: u64 = 34;

pub fn unint(name: &[(&str, bool)]) -> prost_types::UninterpretedOption {
    prost_types::UninterpretedOption {
        name: name.iter().map(|(n, e)| prost_types::uninterpreted_option::NamePart { name_part: n.to_string(), is_extension: *e }).collect(),
        positive_int_value: Some(1),
        ..Default::default()
    }
}
