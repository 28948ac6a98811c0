//! C22: options.

use super::descp::*;
use super::histp::{set_bytes, splice};
use crate::desc::{join, Res, Table, Want};
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::src::Src;
use crate::value::*;
use crate::{text, wire};
use prost::Message as _;
use prost_reflect::{DescriptorPool, DynamicMessage, FileDescriptor};
use prost_types::uninterpreted_option::NamePart;
use prost_types::{source_code_info, FileDescriptorProto, SourceCodeInfo, UninterpretedOption};
use std::collections::{BTreeMap, BTreeSet};

pub const C22: Prop = Prop {
    id: "C22",
    run: c22,
    quick: 30_000,
    thorough: 600_000,
    rule: "at least one option was written as an uninterpreted option, or a faulty option was planted",
};

const KINDS: [&str; 9] = ["File", "Message", "Field", "Oneof", "Enum", "EnumValue", "Service", "Method", "ExtensionRange"];
fn options_name(kind: &str) -> String {
    format!("google.protobuf.{kind}Options")
}
fn options_tag(kind: &str) -> i32 {
    match kind {
        "File" | "Field" => 8,
        "Message" => 7,
        "Oneof" => 2,
        "Method" => 4,
        _ => 3,
    }
}
/// Options with a meaning of their own for the definition; left as they are.
fn special(kind: &str, number: u32) -> bool {
    number == 999
        || match kind {
            "Field" => [2, 5, 6, 10, 15].contains(&number),
            "Message" => [1, 7].contains(&number),
            "Enum" => number == 2,
            _ => false,
        }
}
/// Full name of each definition that can have options.
fn names(f: &FileDescriptorProto) -> BTreeMap<Vec<i32>, (&'static str, String)> {
    type Out = BTreeMap<Vec<i32>, (&'static str, String)>;
    fn at(p: &[i32], tag: i32, i: usize) -> Vec<i32> {
        [p, &[tag, i as i32]].concat()
    }
    fn enm(e: &prost_types::EnumDescriptorProto, p: Vec<i32>, scope: &str, out: &mut Out) {
        for (i, v) in e.value.iter().enumerate() {
            out.insert(at(&p, 2, i), ("EnumValue", join(scope, v.name())));
        }
        out.insert(p, ("Enum", join(scope, e.name())));
    }
    fn msg(m: &prost_types::DescriptorProto, p: Vec<i32>, scope: &str, out: &mut Out) {
        let full = join(scope, m.name());
        for (i, x) in m.field.iter().enumerate() {
            out.insert(at(&p, 2, i), ("Field", join(&full, x.name())));
        }
        for (i, x) in m.extension.iter().enumerate() {
            out.insert(at(&p, 6, i), ("Field", join(&full, x.name())));
        }
        for (i, x) in m.oneof_decl.iter().enumerate() {
            out.insert(at(&p, 8, i), ("Oneof", join(&full, x.name())));
        }
        for i in 0..m.extension_range.len() {
            out.insert(at(&p, 5, i), ("ExtensionRange", full.clone()));
        }
        for (i, x) in m.nested_type.iter().enumerate() {
            msg(x, at(&p, 3, i), &full, out);
        }
        for (i, x) in m.enum_type.iter().enumerate() {
            enm(x, at(&p, 4, i), &full, out);
        }
        out.insert(p, ("Message", full));
    }
    let mut out = BTreeMap::new();
    let scope = f.package();
    out.insert(vec![], ("File", join(scope, "x")));
    for (i, x) in f.message_type.iter().enumerate() {
        msg(x, at(&[], 4, i), scope, &mut out);
    }
    for (i, x) in f.enum_type.iter().enumerate() {
        enm(x, at(&[], 5, i), scope, &mut out);
    }
    for (i, x) in f.extension.iter().enumerate() {
        out.insert(at(&[], 7, i), ("Field", join(scope, x.name())));
    }
    for (i, x) in f.service.iter().enumerate() {
        let full = join(scope, x.name());
        for (j, y) in x.method.iter().enumerate() {
            out.insert(at(&at(&[], 6, i), 2, j), ("Method", join(&full, y.name())));
        }
        out.insert(at(&[], 6, i), ("Service", full));
    }
    out
}
/// What the descriptor of a definition says its options are. None for extension ranges.
fn options_at(f: &FileDescriptor, path: &[i32]) -> Option<DynamicMessage> {
    fn enm(e: prost_reflect::EnumDescriptor, path: &[i32]) -> Option<DynamicMessage> {
        match path {
            [] => Some(e.options()),
            // values() goes by number
            [2, i] => {
                let name = e.enum_descriptor_proto().value[*i as usize].name().to_string();
                Some(e.get_value_by_name(&name)?.options())
            }
            _ => unreachable!(),
        }
    }
    fn msg(m: prost_reflect::MessageDescriptor, path: &[i32]) -> Option<DynamicMessage> {
        let Some((&[t, i], rest)) = path.split_first_chunk() else { return Some(m.options()) };
        let i = i as usize;
        match t {
            // fields() goes by number
            2 => {
                let name = m.descriptor_proto().field[i].name().to_string();
                Some(m.get_field_by_name(&name)?.options())
            }
            3 => msg(m.child_messages().nth(i)?, rest),
            4 => enm(m.child_enums().nth(i)?, rest),
            6 => Some(m.child_extensions().nth(i)?.options()),
            8 => Some(m.oneofs().nth(i)?.options()),
            _ => None,
        }
    }
    let Some((&[t, i], rest)) = path.split_first_chunk() else { return Some(f.options()) };
    let i = i as usize;
    match t {
        4 => msg(f.messages().nth(i)?, rest),
        5 => enm(f.enums().nth(i)?, rest),
        6 => match rest {
            [] => Some(f.services().nth(i)?.options()),
            _ => Some(f.services().nth(i)?.methods().nth(rest[1] as usize)?.options()),
        },
        7 => Some(f.extensions().nth(i)?.options()),
        _ => unreachable!(),
    }
}
/// The options as their generated type has them.
fn typed(kind: &str, b: &[u8]) -> Result<Vec<u8>, String> {
    use prost_types::*;
    macro_rules! t {
        ($($k:literal $t:ident),*) => { match kind { $($k => $t::decode(b).map(|o| o.encode_to_vec()),)* _ => unreachable!() } }
    }
    t!("File" FileOptions, "Message" MessageOptions, "Field" FieldOptions, "Oneof" OneofOptions, "Enum" EnumOptions, "EnumValue" EnumValueOptions,
       "Service" ServiceOptions, "Method" MethodOptions, "ExtensionRange" ExtensionRangeOptions)
    .map_err(|e| e.to_string())
}

/// A file of custom options for all kinds of definitions.
fn add_custom(s: &mut Src, m: &mut Model) -> usize {
    let fi = m.files.len();
    let proto3 = s.chance(1, 3);
    let package = s.pick(&["pkg", "opt", "pkg.opt", "", "pkg.sub0", "google.protobuf"]).to_string();
    m.files.push(FileDef {
        name: "custom.proto".into(),
        package: package.clone(),
        proto3,
        syntax: if proto3 { Some("proto3".into()) } else { None },
        deps: (0..fi).collect(),
        ..Default::default()
    });
    let holder = m.msgs.len();
    m.msgs.push(MsgDef { name: "Holder".into(), full_name: join(&package, "Holder"), file: fi, ..Default::default() });
    m.files[fi].msgs.push(holder);
    let groups: BTreeSet<usize> = m.msgs.iter().flat_map(|x| &x.fields).chain(m.exts.iter().map(|x| &x.f)).filter_map(|f| if let Ty::Group(g) = f.ty { Some(g) } else { None }).collect();
    let msgs: Vec<usize> = user_msgs(m).into_iter().filter(|i| !groups.contains(i)).collect();
    let enums: Vec<usize> = (0..m.enums.len()).filter(|&e| !m.files[m.enums[e].file].wkt && (!proto3 || m.files[m.enums[e].file].proto3)).collect();
    let mut k = 0;
    for kind in KINDS {
        let extendee = m.find_msg(&options_name(kind)).unwrap();
        for _ in 0..s.below(4) {
            k += 1;
            let ty = match s.weighted(&[4, 2, 5]) {
                1 if !enums.is_empty() => Ty::Enum(*s.pick(&enums)),
                2 => Ty::Message(*s.pick(&msgs)),
                _ => *s.pick(&SCALARS),
            };
            let card = if s.chance(1, 3) { Card::Repeated } else { Card::Optional };
            let parent = if s.chance(1, 4) { Some(holder) } else { None };
            let name = match s.below(5) {
                // the name of a standard option, too
                0 if !m.exts.iter().any(|x| x.file == fi && x.f.name == "deprecated") => "deprecated".to_string(),
                _ => format!("o{k}"),
            };
            let scope = parent.map_or(package.clone(), |p| m.msgs[p].full_name.clone());
            let number = *s.pick(&[1000, 1100, 18_990, 20_000, 50_000, 536_870_800]) + k;
            let id = m.exts.len();
            m.exts.push(ExtDef {
                full_name: join(&scope, &name),
                f: FieldDef {
                    name,
                    number: if (19_000..20_000).contains(&number) { 30_000 + k } else { number },
                    card,
                    ty,
                    oneof: None,
                    proto3_optional: false,
                    packed: if card == Card::Repeated && ty.packable() { *s.pick(&[None, Some(true), Some(false)]) } else { None },
                    bare_options: false,
                    deprecated: None,
                    json_name: None,
                    default: None,
                },
                file: fi,
                parent,
                extendee,
            });
            match parent {
                Some(p) => m.msgs[p].exts.push(id),
                None => m.files[fi].exts.push(id),
            }
        }
    }
    fi
}

struct Gen<'a> {
    s: &'a mut Src,
    /// the model of the options and the files of the schema, and as the file sees it
    all: &'a Model,
    om: &'a Model,
    t: &'a Table<'a>,
}
/// Where an uninterpreted option is written.
#[derive(Clone)]
struct At<'a> { file: usize, kind: &'a str, full: &'a str }
struct Made {
    o: UninterpretedOption,
    /// numbers of the fields, and the index for elements of repeated fields
    to: Vec<i32>,
    ty: Ty,
    /// mid, name of each part but the last
    map: bool,
    single: bool,
    /// the field tracks presence
    presence: bool,
}

impl Gen<'_> {
    fn spell(&mut self, at: &At, name: &str) -> Option<String> {
        let inner = format!("{}.x", at.full);
        let ok: Vec<String> = spellings(name)
            .into_iter()
            .filter(|n| [at.full, inner.as_str()].iter().all(|sc| matches!(self.t.resolve(at.file, sc, n, Want::Ext), Res::Ok(r, _) if r == name)))
            .collect();
        if ok.is_empty() { None } else { Some(self.s.pick(&ok).clone()) }
    }
    fn part(&mut self, at: &At, fr: FRef) -> Option<NamePart> {
        Some(match fr {
            FRef::F(f) => NamePart { name_part: f.name.clone(), is_extension: false },
            FRef::X(x) => NamePart { name_part: self.spell(at, &x.full_name)?, is_extension: true },
        })
    }
    fn literal(&mut self, ty: Ty, v: &RVal, o: &mut UninterpretedOption) {
        let mut int = |v: i128| {
            if v < 0 { o.negative_int_value = Some(v as i64) } else { o.positive_int_value = Some(v as u64) }
        };
        match v {
            RVal::I32(x) => int(*x as i128),
            RVal::I64(x) => int(*x as i128),
            RVal::U32(x) => int(*x as i128),
            RVal::U64(x) => int(*x as i128),
            RVal::F32(x) => self.float(*x as f64, o),
            RVal::F64(x) => self.float(*x, o),
            RVal::Bool(x) => o.identifier_value = Some(x.to_string()),
            RVal::Str(x) => o.string_value = Some(x.clone().into_bytes()),
            RVal::Bytes(x) => o.string_value = Some(x.clone()),
            RVal::Enum(n) => {
                let Ty::Enum(e) = ty else { unreachable!() };
                let names: Vec<String> = self.om.enums[e].values.iter().filter(|v| v.1 == *n).map(|v| v.0.clone()).collect();
                o.identifier_value = Some(self.s.pick(&names).clone());
            }
            RVal::Msg(r) => {
                let fs = text::sp_fields(self.om, r, self.s);
                o.aggregate_value = Some(self.text(&fs));
            }
            _ => unreachable!(),
        }
    }
    fn text(&mut self, fs: &[text::SF]) -> String {
        let mut ts = vec![];
        text::flat(fs, self.s, &mut ts);
        text::join(&ts, self.s).0
    }
    fn float(&mut self, v: f64, o: &mut UninterpretedOption) {
        if v.fract() == 0.0 && (-9223372036854775808.0..18446744073709551616.0).contains(&v) && v.to_bits() != (-0.0f64).to_bits() && self.s.flip() {
            if v < 0.0 { o.negative_int_value = Some(v as i64) } else { o.positive_int_value = Some(v as u64) }
        } else {
            o.double_value = Some(v)
        }
    }
    fn vcfg(&mut self) -> VCfg {
        VCfg { depth: 3, unknown_enum: false, budget: 12, ..Default::default() }
    }
    /// Sets a random option in `cur`, and writes it.
    fn option(&mut self, at: &At, cur: &mut RMsg, top: bool, depth: u32, done: &mut BTreeSet<Vec<i32>>, to: &[i32]) -> Option<Made> {
        let om = self.om;
        let mid = cur.mid;
        let md = &om.msgs[mid];
        let fields: Vec<FRef> = md.fields.iter().filter(|f| !top || !special(at.kind, f.number)).map(FRef::F).collect();
        let exts: Vec<FRef> = om.exts.iter().filter(|x| x.extendee == mid).map(FRef::X).collect();
        for _ in 0..5 {
            let from = if fields.is_empty() || (!exts.is_empty() && self.s.chance(2, 3)) { &exts } else { &fields };
            if from.is_empty() {
                return None;
            }
            let fr = *self.s.pick(from);
            let f = fr.def();
            let n = f.number;
            let path = [to, &[n as i32]].concat();
            if md.fields.iter().any(|g| f.oneof.is_some() && g.oneof == f.oneof && g.number != n && cur.f.contains_key(&g.number)) {
                continue;
            }
            let Some(part) = self.part(at, fr) else { continue };
            let mut o = UninterpretedOption::default();
            let mut made = Made { o: o.clone(), to: path.clone(), ty: f.ty, map: false, single: false, presence: om.has_presence(mid, fr) };
            if om.is_map(f) {
                let mut c = self.vcfg();
                let RVal::Map(e) = gen_field_value(self.s, om, mid, fr, 2, &mut c) else { unreachable!() };
                let (k, v) = e.into_iter().next().unwrap();
                let RVal::Map(have) = cur.f.entry(n).or_insert_with(|| RVal::Map(BTreeMap::new())) else { unreachable!() };
                if have.contains_key(&k) {
                    continue;
                }
                have.insert(k.clone(), v.clone());
                let one = RMsg { mid, f: BTreeMap::from([(n, RVal::Map(BTreeMap::from([(k, v)])))]), unk: vec![] };
                // the entry as the text format writes it
                let sf = text::sp_fields(om, &one, self.s).into_iter().filter(|f| f.num == n && !matches!(&f.val, text::SV::List(l) if l.is_empty())).last().unwrap();
                let entry = match sf.val {
                    text::SV::List(mut l) => l.pop().unwrap(),
                    v => v,
                };
                let text::SV::Msg(fs, _) = entry else { unreachable!() };
                o.aggregate_value = Some(self.text(&fs));
                made.map = true;
            } else if f.card == Card::Repeated {
                let mut c = self.vcfg();
                let v = gen_val(self.s, om, f.ty, 2, &mut c);
                self.literal(f.ty, &v, &mut o);
                let RVal::List(l) = cur.f.entry(n).or_insert_with(|| RVal::List(vec![])) else { unreachable!() };
                made.to.push(l.len() as i32);
                l.push(v);
            } else {
                let descend = f.ty.msg().is_some() && depth > 0 && (cur.f.contains_key(&n) || self.s.flip());
                if descend {
                    let sub_mid = f.ty.msg().unwrap();
                    let had = cur.f.contains_key(&n);
                    let RVal::Msg(sub) = cur.f.entry(n).or_insert_with(|| RVal::Msg(RMsg::new(sub_mid))) else { unreachable!() };
                    match self.option(at, sub, false, depth - 1, done, &path) {
                        Some(mut made) => {
                            made.o.name.insert(0, part);
                            return Some(made);
                        }
                        None => {
                            if !had {
                                cur.f.remove(&n);
                            }
                            continue;
                        }
                    }
                }
                if cur.f.contains_key(&n) || !done.insert(path.clone()) {
                    continue;
                }
                let mut c = self.vcfg();
                let v = if self.s.chance(1, 6) { om.default_of(f) } else { gen_field_value(self.s, om, mid, fr, 2, &mut c) };
                self.literal(f.ty, &v, &mut o);
                if om.has_presence(mid, fr) || !is_implicit_default(om, f, &v) {
                    cur.f.insert(n, v);
                }
                made.single = true;
            }
            o.name.push(part);
            made.o = o;
            return Some(made);
        }
        None
    }
    /// A value the type cannot take.
    fn bad_literal(&mut self, ty: Ty, o: &mut UninterpretedOption) -> &'static str {
        let name = std::mem::take(&mut o.name);
        *o = UninterpretedOption { name, ..Default::default() };
        let int = |ty: Ty| matches!(ty, Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 | Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 | Ty::Uint32 | Ty::Fixed32 | Ty::Uint64 | Ty::Fixed64);
        let float = matches!(ty, Ty::Float | Ty::Double);
        let strs = matches!(ty, Ty::String | Ty::Bytes);
        let range = int(ty) && self.s.flip();
        loop {
            match if range { 7 } else { self.s.below(8) } {
                0 => return "no value",
                1 => {
                    let t = match ty {
                        Ty::Bool => *self.s.pick(&["True", "1", "t", "", "falsey"]),
                        Ty::Enum(_) => *self.s.pick(&["NO_SUCH_VALUE", "0", ""]),
                        _ => *self.s.pick(&["true", "x", ""]),
                    };
                    o.identifier_value = Some(t.into());
                    return "identifier";
                }
                2 if !int(ty) && !float => {
                    if self.s.flip() { o.positive_int_value = Some(self.s.below(3)) } else { o.negative_int_value = Some(-1) }
                    return "integer";
                }
                3 if !float => {
                    o.double_value = Some(*self.s.pick(&[0.0, 1.0, 1.5]));
                    return "double";
                }
                4 if !strs => {
                    o.string_value = Some(self.s.pick(&[&b""[..], b"1", b"true", b"a: 1"]).to_vec());
                    return "string";
                }
                5 if ty.msg().is_none() => {
                    o.aggregate_value = Some(self.s.pick(&["", "a: 1", "1"]).to_string());
                    return "aggregate";
                }
                6 => match ty {
                    Ty::String => {
                        o.string_value = Some(self.s.pick(&[&b"\xff"[..], b"a\xc3", b"\xed\xa0\x80"]).to_vec());
                        return "invalid UTF-8";
                    }
                    Ty::Message(_) | Ty::Group(_) => {
                        o.aggregate_value = Some(self.s.pick(&["}", "no_such_field_: 1", "{", "\"", "[no.such.ext]: 1", ": 1", "{}"]).to_string());
                        return "bad text";
                    }
                    _ => {}
                },
                _ => {
                    match ty {
                        Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => {
                            if self.s.flip() { o.positive_int_value = Some(*self.s.pick(&[1 << 31, 1 << 32, u64::MAX])) } else { o.negative_int_value = Some(*self.s.pick(&[-(1 << 31) - 1, i64::MIN])) }
                        }
                        Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => o.positive_int_value = Some(*self.s.pick(&[1 << 63, u64::MAX])),
                        Ty::Uint32 | Ty::Fixed32 => {
                            if self.s.flip() { o.positive_int_value = Some(*self.s.pick(&[1 << 32, u64::MAX])) } else { o.negative_int_value = Some(*self.s.pick(&[-1, i64::MIN])) }
                        }
                        Ty::Uint64 | Ty::Fixed64 => o.negative_int_value = Some(*self.s.pick(&[-1, i64::MIN])),
                        _ => continue,
                    }
                    return "out of range";
                }
            }
        }
    }
    /// A fault for the definition; `good` are the options it already has.
    fn fault(&mut self, at: &At, expect: &RMsg, good: &[Made]) -> Option<(UninterpretedOption, String)> {
        let om = self.om;
        let mid = expect.mid;
        let plain = |n: &str| NamePart { name_part: n.into(), is_extension: false };
        let ext = |n: &str| NamePart { name_part: n.into(), is_extension: true };
        let ident = |name: Vec<NamePart>| UninterpretedOption { name, identifier_value: Some("true".into()), ..Default::default() };
        let mut scratch = expect.clone();
        match self.s.below(20) {
            0 | 1 | 2 | 12..=19 => {
                let mut m = self.option(at, &mut scratch, true, 3, &mut BTreeSet::new(), &[])?;
                let k = self.bad_literal(m.ty, &mut m.o);
                let ty = format!("{:?}", m.ty);
                Some((m.o, format!("{k} for {}", ty.split('(').next().unwrap().to_lowercase())))
            }
            3 => {
                // the last part names nothing
                let mut m = self.option(at, &mut scratch, true, 3, &mut BTreeSet::new(), &[])?;
                let l = m.o.name.len() - 1;
                let n = if m.o.name[l].is_extension || self.s.flip() { "no_such_option".to_string() } else { m.o.name[l].name_part.to_uppercase() };
                if n == m.o.name[l].name_part {
                    return None;
                }
                m.o.name[l] = if self.s.flip() { ext(&n) } else { plain(&n) };
                Some((m.o, "unknown name".into()))
            }
            4 => {
                // a part in the middle that is no message
                let mut m = self.option(at, &mut scratch, true, 3, &mut BTreeSet::new(), &[])?;
                if m.single && m.ty.msg().is_some() {
                    return None;
                }
                m.o.name.push(plain("value"));
                Some((m.o, "path through a scalar or repeated field".into()))
            }
            5 => {
                // once more
                let twice: Vec<&Made> = good.iter().filter(|m| m.single && m.presence).collect();
                if twice.is_empty() {
                    return None;
                }
                let mut o = self.s.pick(&twice).o.clone();
                let k = if o.name.len() > 1 && self.s.chance(1, 3) {
                    // the message around it
                    o.name.pop();
                    o = UninterpretedOption { name: o.name, aggregate_value: Some(String::new()), ..Default::default() };
                    "message set after its fields"
                } else {
                    "option set twice"
                };
                Some((o, k.into()))
            }
            6 => Some((UninterpretedOption { identifier_value: Some("true".into()), ..Default::default() }, "no name".into())),
            7 => {
                // an option for another kind of definition
                let xs: Vec<String> = om.exts.iter().filter(|x| x.extendee != mid).map(|x| x.full_name.clone()).collect();
                if xs.is_empty() {
                    return None;
                }
                let n = self.s.pick(&xs).clone();
                Some((ident(vec![ext(&format!(".{n}"))]), "extension of another message".into()))
            }
            8 => {
                // not an extension
                let ns: Vec<&String> = {
                    let mut v: Vec<_> = self.t.syms.iter().filter(|(_, (k, _))| *k != crate::desc::Sym::Ext).map(|x| x.0).collect();
                    v.sort();
                    v
                };
                if ns.is_empty() {
                    return None;
                }
                let n = self.s.pick(&ns).to_string();
                Some((ident(vec![ext(&format!(".{n}"))]), "name of something else".into()))
            }
            9 => {
                // an extension of a file that is not imported
                let xs: Vec<String> = self.all.exts.iter().filter(|x| x.extendee == mid && !self.om.exts.iter().any(|y| y.full_name == x.full_name)).map(|x| x.full_name.clone()).collect();
                if xs.is_empty() {
                    return None;
                }
                let n = self.s.pick(&xs).clone();
                let mut o = ident(vec![ext(&format!(".{n}"))]);
                let x = self.all.exts.iter().find(|x| x.full_name == n).unwrap();
                let mut c = self.vcfg();
                let v = gen_val(self.s, om, x.f.ty, 1, &mut c);
                self.literal(x.f.ty, &v, &mut o);
                Some((o, "extension that is not imported".into()))
            }
            10 => {
                // fields in parentheses, extensions without
                let mut m = self.option(at, &mut scratch, true, 3, &mut BTreeSet::new(), &[])?;
                let l = self.s.us(m.o.name.len());
                let p = &mut m.o.name[l];
                p.is_extension = !p.is_extension;
                if !p.is_extension && p.name_part == "deprecated" || p.is_extension && p.name_part == "deprecated" {
                    return None;
                }
                Some((m.o, "parentheses".into()))
            }
            _ => {
                let mut o = ident(vec![plain("uninterpreted_option")]);
                o.identifier_value = None;
                o.aggregate_value = Some(self.s.pick(&["", "identifier_value: 'a'"]).to_string());
                Some((o, "reserved name".into()))
            }
        }
    }
}

fn c22(c: &mut Ctx) -> R {
    let cfg = Cfg { max_files: 1 + c.s.below(2), max_msgs: 1 + c.s.below(3), max_fields: 1 + c.s.below(5), services: true, ..Default::default() };
    let custom = c.s.chance(4, 5);
    let m;
    let mut files: Vec<FileDescriptorProto>;
    let om: &Model;
    let dm = desc_model();
    let base;
    if custom {
        let mut x = gen_onto(&mut c.s, &cfg, (*desc_model()).clone(), 0);
        let fi = add_custom(&mut c.s, &mut x);
        m = gen_onto(&mut c.s, &cfg, x, 1);
        files = m.fds().file;
        files[0] = desc_file();
        let hub = c.s.chance(1, 3);
        if hub {
            files.insert(fi + 1, FileDescriptorProto { name: Some("hub.proto".into()), package: Some("hub".into()), dependency: vec!["custom.proto".into()], public_dependency: vec![0], ..Default::default() });
            c.label("public import");
        }
        for f in &mut files[fi + 1..] {
            let i = f.dependency.iter().position(|d| d == "custom.proto");
            if let (Some(i), true) = (i, hub && f.name() != "hub.proto") {
                f.dependency[i] = "hub.proto".into();
            }
            // nothing but options needs it
            if let (Some(i), true) = (i, f.public_dependency.is_empty() && c.s.chance(1, 8) && !format!("{f:?}").contains("Holder")) {
                f.dependency.remove(i);
            }
        }
        om = &m;
        base = 1;
        c.label("custom options");
    } else {
        m = gen_model(&mut c.s, &cfg);
        files = m.fds().file;
        om = &dm;
        base = 0;
    }
    let t = Table::new(&files);
    let mut expect: BTreeMap<(usize, Vec<i32>), RMsg> = BTreeMap::new();
    let mut made: BTreeMap<(usize, Vec<i32>), Vec<Made>> = BTreeMap::new();
    let mut bytes: Vec<Vec<u8>> = vec![];
    let mut count = 0;
    let faulty = if c.s.chance(2, 5) { base + c.s.us(files.len() - base) } else { 0 };
    let faulty = if c.s.chance(2, 5) && faulty > 0 { files.len() - 1 } else { faulty };
    let many = c.s.chance(1, 4);
    let mut fault: Option<(usize, Vec<i32>, &'static str, String)> = None;
    for (i, f) in files.iter().enumerate() {
        let b = f.encode_to_vec();
        if i < base {
            bytes.push(b);
            continue;
        }
        let mut view = om.clone();
        view.exts.retain(|x| custom && t.vis[i].iter().any(|&v| files[v].name() == om.files[x.file].name));
        let names = names(f);
        let mut todo: BTreeMap<Vec<i32>, Option<Vec<u8>>> = BTreeMap::new();
        let _ = splice(&b, "File", &[], &mut |_, p, o| {
            todo.insert(p.to_vec(), o.map(|o| o.to_vec()));
            o.map(|o| o.to_vec())
        });
        assert!(todo.keys().eq(names.keys()), "harness: definitions");
        for (p, o) in &mut todo {
            let (kind, full) = &names[p];
            let at = At { file: i, kind, full };
            let mid = om.find_msg(&options_name(kind)).unwrap();
            let mut out = o.clone().unwrap_or_default();
            if c.s.chance(1, 6) {
                // options that are encoded already
                let mut vc = VCfg { depth: 2, unk: true, budget: 10, ..Default::default() };
                let mut r = gen_msg(&mut c.s, om, mid, 2, &mut vc);
                r.f.retain(|n, _| !special(kind, *n));
                r.unk.retain(|(n, _)| *n != 999 && !special(kind, *n));
                // members of one oneof etc. are settled by the reference decoder
                out.extend(wire::noisy(&mut c.s, om, &r, true));
                *o = Some(out.clone());
                c.label_if(!r.f.is_empty(), "encoded options");
            }
            let mut r = wire::dec(om, mid, &out).map_err(|e| Fail { sig: "harness".into(), msg: e })?;
            wire::normalize(om, &mut r);
            let n = if c.s.chance(1, if many { 2 } else { 8 }) { 1 + c.s.below(3) } else { 0 };
            let mut done = BTreeSet::new();
            let mut ms = vec![];
            let mut g = Gen { s: &mut c.s, all: om, om: &view, t: &t };
            for _ in 0..n {
                if let Some(m) = g.option(&at, &mut r, true, 3, &mut done, &[]) {
                    ms.push(m);
                }
            }
            let mut written: Vec<UninterpretedOption> = ms.iter().map(|m| m.o.clone()).collect();
            if faulty == i && i > 0 && fault.is_none() && c.s.chance(1, 6) {
                let mut g = Gen { s: &mut c.s, all: om, om: &view, t: &t };
                if let Some((o, k)) = g.fault(&at, &r, &ms) {
                    // the one that is set twice comes last
                    if k.contains("twice") || k.contains("after") { written.push(o) } else { written.insert(c.s.us(written.len() + 1), o) }
                    fault = Some((i, p.clone(), kind, k));
                }
            }
            for u in &written {
                super::histp::put(&mut out, 999, &u.encode_to_vec());
                *o = Some(vec![]);
            }
            if o.is_some() {
                *o = Some(out);
                expect.insert((i, p.clone()), r);
            }
            count += ms.len();
            for m in &ms {
                c.label_if(m.o.name.len() > 1, "path of several parts");
                c.label_if(m.o.name.iter().any(|p| p.is_extension), "extension");
                c.label_if(m.map, "map entry");
                c.label_if(m.o.aggregate_value.is_some(), "aggregate");
                c.label_if(!m.map && !m.single, "element");
            }
            made.insert((i, p.clone()), ms);
        }
        let b = splice(&b, "File", &[], &mut |_, p, _| todo[p].clone());
        bytes.push(b);
    }
    // source locations of the options
    let mut locs: Vec<Vec<(Vec<i32>, Vec<i32>)>> = vec![vec![]; files.len()];
    for ((i, p), ms) in &made {
        let (kind, _) = names(&files[*i])[p].clone();
        let opt = [&p[..], &[options_tag(kind)]].concat();
        if !ms.is_empty() && c.s.flip() {
            locs[*i].push((opt.clone(), opt.clone()));
            locs[*i].push((p.clone(), p.clone()));
        }
        for (k, m) in ms.iter().enumerate() {
            if m.map || c.s.chance(1, 3) {
                continue;
            }
            for rest in [&[][..], &[2], &[2, 0], &[2, 0, 1], &[8]] {
                if rest.is_empty() || c.s.chance(1, 3) {
                    locs[*i].push(([&opt[..], &[999, k as i32], rest].concat(), [&opt[..], &m.to, rest].concat()));
                }
            }
        }
    }
    if fault.is_none() {
        for (i, l) in locs.iter_mut().enumerate() {
            if l.is_empty() {
                continue;
            }
            c.label("source locations");
            c.s.shuffle(l);
            let sci = SourceCodeInfo {
                location: l.iter().enumerate().map(|(k, (from, _))| source_code_info::Location { path: from.clone(), span: vec![k as i32, 0, 1], ..Default::default() }).collect(),
            };
            super::histp::put(&mut bytes[i], 9, &sci.encode_to_vec());
        }
    }
    let proto: Vec<FileDescriptorProto> = bytes.iter().map(|b| FileDescriptorProto::decode(&b[..]).unwrap()).collect();
    c.note(|| format!("fault {fault:?}\n{}", show(&proto[base..])));
    c.digest(&set_bytes(&bytes));
    emit(if fault.is_some() { 0 } else { 1 }, &set_bytes(&bytes), fault.as_ref().map_or("", |f| &f.3).as_bytes());
    c.nontrivial = count > 0 || fault.is_some();
    // structs carry no custom options, uninterpreted ones they do
    let mut pool = DescriptorPool::new();
    let r = match c.s.below(3) {
        0 => pool.decode_file_descriptor_set(c.s.split(set_bytes(&bytes))),
        1 => bytes.iter().try_for_each(|b| pool.decode_file_descriptor_proto(c.s.split(b))),
        _ => {
            let k = c.s.us(bytes.len());
            pool.decode_file_descriptor_set(&set_bytes(&bytes[..k])[..]).and_then(|_| pool.decode_file_descriptor_set(&set_bytes(&bytes[k..])[..]))
        }
    };
    if let Some((i, p, kind, k)) = &fault {
        c.label(k);
        let e = match r {
            Ok(()) => return fail(&format!("accepted: {k}"), format!("a faulty option was accepted: {k}, at {p:?} of {}", files[*i].name())),
            Err(e) => e,
        };
        let text = err_text(&e);
        let (file, path) = audit_error(c, e, &proto, "option")?;
        let want = [&p[..], &[options_tag(kind)]].concat();
        ensure!(file.as_deref() == Some(files[*i].name()) && path.starts_with(&want), "place", "{text:?} is about {path:?} of {file:?}, the fault ({k}) is at {want:?} of {}", files[*i].name());
        return Ok(());
    }
    if let Err(e) = r {
        return fail("rejected", format!("files with valid options were rejected: {}", err_text(&e)));
    }
    let env = Env::with_pool(om, if custom { pool.clone() } else { DescriptorPool::global() }).map_err(|e| Fail { sig: "harness".into(), msg: e })?;
    let check = |what: &str, i: usize, p: &[i32], got: &RMsg| {
        let none;
        let want = match expect.get(&(i, p.to_vec())) {
            Some(w) => w,
            None => {
                none = RMsg::new(got.mid);
                &none
            }
        };
        if want == got {
            return Ok(());
        }
        let (kind, full) = names(&files[i])[p].clone();
        fail(what, format!("{what} of {} {full} ({p:?} of {}): {}", kind, files[i].name(), diff(om, want, got)))
    };
    let mut again = DescriptorPool::new();
    for (i, f) in files.iter().enumerate() {
        let Some(fd) = pool.get_file_by_name(f.name()) else { return fail("missing", format!("{} is missing", f.name())) };
        let enc = fd.encode_to_vec();
        if let Err(e) = again.decode_file_descriptor_proto(c.s.split(&enc)) {
            return fail("encoded", format!("{} was rejected after encoding: {}", f.name(), err_text(&e)));
        }
        if i < base {
            continue;
        }
        for p in names(f).keys() {
            let Some(o) = options_at(&fd, p) else { continue };
            let name = prost_reflect::ReflectMessage::descriptor(&o).full_name().to_string();
            let (kind, _) = names(f)[p];
            ensure!(name == options_name(kind), "type", "the options of {p:?} of {} are a {name}", f.name());
            check("options()", i, p, &env.from_dyn(&o))?;
        }
        // the encoded form, and the generated types
        let raw = fd.file_descriptor_proto();
        let mut typed_opts = BTreeMap::new();
        splice(&raw.encode_to_vec(), "File", &[], &mut |_, p, o| {
            typed_opts.insert(p.to_vec(), o.map(|o| o.to_vec()));
            None
        });
        let mut res = Ok(());
        splice(&enc, "File", &[], &mut |kind, p, o| {
            let mut one = || -> R {
                ensure!(o.is_some() == expect.contains_key(&(i, p.to_vec())), "presence", "the options of {kind} {p:?} of {}: {o:?} in the encoded file", f.name());
                let Some(o) = o else {
                    ensure!(typed_opts[p].is_none(), "presence", "the options of {kind} {p:?} of {} are set in the struct", f.name());
                    return Ok(());
                };
                let mid = om.find_msg(&options_name(kind)).unwrap();
                let mut got = match wire::dec(om, mid, o) {
                    Ok(g) => g,
                    Err(e) => return fail("encoded options", format!("{e} in the encoded options of {kind} {p:?} of {}", f.name())),
                };
                wire::normalize(om, &mut got);
                check("encoded options", i, p, &got)?;
                let want = typed(kind, &wire::enc(om, &expect[&(i, p.to_vec())])).map_err(|e| Fail { sig: "harness".into(), msg: e })?;
                let Some(have) = &typed_opts[p] else { return fail("presence", format!("no options of {kind} {p:?} in the struct")) };
                ensure!(typed(kind, have).as_ref() == Ok(&want), "struct", "the options of {kind} {p:?} of {} in the struct differ\n  expected {}\n  got      {}", f.name(), crate::desc::hex(&want), crate::desc::hex(have));
                Ok(())
            };
            if res.is_ok() {
                res = one();
            }
            None
        });
        res?;
        let got: Vec<&[i32]> = raw.source_code_info.iter().flat_map(|s| &s.location).map(|l| &l.path[..]).collect();
        let want: Vec<&[i32]> = locs[i].iter().map(|l| &l.1[..]).collect();
        if want != got {
            let k = (0..want.len()).find(|&k| want.get(k) != got.get(k)).unwrap_or(0);
            return fail("locations", format!("location {:?} of {} became {:?} instead of {:?}", locs[i].get(k).map(|l| &l.0), f.name(), got.get(k), want.get(k)));
        }
    }
    // the pool made from the encoded files (maps may be written in another order)
    let env2 = Env::with_pool(om, if custom { again.clone() } else { DescriptorPool::global() }).map_err(|e| Fail { sig: "harness".into(), msg: e })?;
    for ((i, p), _) in &expect {
        let fd = again.get_file_by_name(files[*i].name()).unwrap();
        if let Some(o) = options_at(&fd, p) {
            check("options() after encoding", *i, p, &env2.from_dyn(&o))?;
        }
    }
    Ok(())
}
