//! C08-C12: the JSON mapping.

use super::wirep::{classify, describe, env, gen_case};
use crate::engine::*;
use crate::ensure;
use crate::json::*;
use crate::wkt::{edit_text, gen_dur, gen_ts, read_dur, read_ts};
use crate::model::*;
use crate::src::Src;
use crate::value::*;
use crate::wkt;
use prost_reflect::{DeserializeOptions, DynamicMessage, MessageDescriptor};
use std::collections::BTreeMap;

pub fn to_text(d: &DynamicMessage, o: &JOpts, pretty: bool) -> Result<String, String> {
    let mut b = vec![];
    let r = if pretty {
        let mut ser = serde_json::Serializer::pretty(&mut b);
        d.serialize_with_options(&mut ser, &o.lib()).map(|_| ())
    } else {
        let mut ser = serde_json::Serializer::new(&mut b);
        d.serialize_with_options(&mut ser, &o.lib()).map(|_| ())
    };
    r.map_err(|e| e.to_string())?;
    String::from_utf8(b).map_err(|e| e.to_string())
}
/// (an option at its documented default need not be named)
fn dopts(deny: bool, t: &str) -> DeserializeOptions {
    match deny && t.len() % 3 == 0 {
        true => DeserializeOptions::default(),
        false => DeserializeOptions::new().deny_unknown_fields(deny),
    }
}
pub fn from_text(desc: &MessageDescriptor, t: &str, deny: bool) -> Result<DynamicMessage, String> {
    let mut de = serde_json::Deserializer::from_str(t);
    // (the ways without options deny unknown fields)
    let d = match deny && t.len() % 2 == 0 {
        true => serde::de::DeserializeSeed::deserialize(desc.clone(), &mut de),
        false => DynamicMessage::deserialize_with_options(desc.clone(), &mut de, &dopts(deny, t)),
    }
    .map_err(|e| e.to_string())?;
    de.end().map_err(|e| e.to_string())?;
    Ok(d)
}
fn from_reader(desc: &MessageDescriptor, t: &str, deny: bool) -> Result<DynamicMessage, String> {
    let mut de = serde_json::Deserializer::from_reader(t.as_bytes());
    // (the ways without options deny unknown fields)
    let d = match deny && t.len() % 2 == 0 {
        true => DynamicMessage::deserialize(desc.clone(), &mut de),
        false => DynamicMessage::deserialize_with_options(desc.clone(), &mut de, &dopts(deny, t)),
    }
    .map_err(|e| e.to_string())?;
    de.end().map_err(|e| e.to_string())?;
    Ok(d)
}
pub struct WithOpts<'a>(&'a DynamicMessage, &'a JOpts);
impl serde::Serialize for WithOpts<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize_with_options(s, &self.1.lib())
    }
}
fn cfg() -> Cfg {
    Cfg { wkt: true, max_msgs: 3, max_fields: 6, cross_json: true, ..Default::default() }
}
fn vcfg() -> VCfg {
    VCfg { json_safe: true, budget: 30, ..Default::default() }
}
fn case(c: &mut Ctx, unk: bool) -> (Model, usize, RMsg) {
    let mut vc = vcfg();
    vc.unk = unk && c.s.chance(1, 5);
    if vc.unk {
        c.label("unknown-fields");
    }
    let (m, mid, v) = gen_case(&mut c.s, &cfg(), &mut vc);
    c.note(|| format!("schema: {}\nmessage type: {}\nvalue: {v:?}", describe(&m), m.msgs[mid].full_name));
    c.digest(format!("{}{v:?}", m.msgs[mid].full_name).as_bytes());
    classify(c, &m, &v);
    c.nontrivial = weight(&v) >= 2;
    (m, mid, v)
}
fn label_wkt(c: &mut Ctx, m: &Model, r: &RMsg) {
    for v in r.f.values() {
        walk_val(v, &mut |x| {
            let n = &m.msgs[x.mid].full_name;
            if is_wkt(n) {
                c.label(n.rsplit('.').next().unwrap());
            }
        });
    }
}
fn walk_val(v: &RVal, f: &mut impl FnMut(&RMsg)) {
    match v {
        RVal::Msg(x) => {
            f(x);
            x.f.values().for_each(|v| walk_val(v, f));
        }
        RVal::List(l) => l.iter().for_each(|v| walk_val(v, f)),
        RVal::Map(l) => l.values().for_each(|v| walk_val(v, f)),
        _ => {}
    }
}

pub const C08: Prop = Prop {
    id: "C08",
    run: c08,
    quick: 250_000,
    thorough: 6_000_000,
    rule: "case = generated schema (with well-known types, extensions, odd JSON names) + message with JSON-representable content + serialization options + carrier (JSON text, reader, serde_json::Value, serde_value); oracle = parse(serialize(x)) == x; non-trivial = at least 2 populated values; distinct = hash of type and value",
};
fn c08(c: &mut Ctx) -> R {
    let (m, mid, v) = case(c, true);
    let e = env(&m)?;
    label_wkt(c, &m, &v);
    let d = e.to_dyn(&v);
    let mut o = JOpts::random(&mut c.s);
    if m.msgs.iter().enumerate().any(|(i, x)| x.fields.iter().any(|f| m.shadowed(i, f))) {
        c.label("crossed-names");
        o.proto_names = false; // (one name for two fields)
    }
    let deny = !c.s.flip();
    let carrier = c.s.below(5);
    c.note(|| format!("options: {o:?} deny_unknown {deny} carrier {carrier}"));
    let desc = &e.msgs[mid];
    let dopt = DeserializeOptions::new().deny_unknown_fields(deny);
    let back = no_panic("json", || -> Result<(DynamicMessage, String), String> {
        Ok(match carrier {
            0 | 1 => {
                let t = to_text(&d, &o, carrier == 1)?;
                let r = from_text(desc, &t, deny).map_err(|e| format!("{e}\ntext: {t}"))?;
                (r, t)
            }
            2 => {
                let t = to_text(&d, &o, false)?;
                let r = from_reader(desc, &t, deny).map_err(|e| format!("{e}\ntext: {t}"))?;
                (r, t)
            }
            3 => {
                let x = d.serialize_with_options(serde_json::value::Serializer, &o.lib()).map_err(|e| e.to_string())?;
                let t = x.to_string();
                let r = DynamicMessage::deserialize_with_options(desc.clone(), x, &dopt).map_err(|e| format!("{e}\nvalue: {t}"))?;
                (r, t)
            }
            _ => {
                let x = serde_value::to_value(WithOpts(&d, &o)).map_err(|e| e.to_string())?;
                let t = format!("{x:?}");
                let r = DynamicMessage::deserialize_with_options(
                    desc.clone(),
                    serde_value::ValueDeserializer::<serde_value::DeserializerError>::new(x),
                    &dopt,
                )
                .map_err(|e| format!("{e}\nvalue: {t}"))?;
                (r, t)
            }
        })
    })?;
    let (back, t) = match back {
        Ok(x) => x,
        Err(x) => return fail("round-trip-error", x),
    };
    let got = e.from_dyn(&back);
    // (unknown fields have no JSON form)
    let content = |x: &RMsg| {
        let mut x = canon_any(&m, x);
        strip_unknown(&mut x);
        x
    };
    ensure!(content(&got) == content(&v), "round-trip", "through {t}: {}", diff(&m, &content(&v), &content(&got)));
    // a second trip prints the same document
    if carrier == 0 {
        let o2 = JOpts::canonical();
        let (a, b) = (to_text(&d, &o2, false), to_text(&back, &o2, false));
        let (Ok(a), Ok(b)) = (a, b) else { return fail("reprint", "cannot print again") };
        let (pa, pb) = (parse(&a), parse(&b));
        ensure!(pa.is_ok() && same_doc(&pa.clone().unwrap(), pb.as_ref().unwrap_or(&j(K::Null))), "reprint", "{a} then {b}");
    }
    Ok(())
}
pub use crate::json::{any_equal, canon_any};
fn same_doc(a: &J, b: &J) -> bool {
    match (&a.k, &b.k) {
        (K::Arr(x), K::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_doc(p, q)),
        (K::Obj(x), K::Obj(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.iter().find(|z| z.0 == *k).map_or(false, |z| same_doc(v, &z.1)))
        }
        (x, y) => x == y,
    }
}

pub const C09: Prop = Prop {
    id: "C09",
    run: c09,
    quick: 300_000,
    thorough: 7_000_000,
    rule: "case = generated schema + message + serialization options; oracle = reference JSON document built by the harness, compared with the parsed output (number text, names, special forms; no duplicate, missing or extra member); non-trivial = at least 2 populated values; distinct = hash of type and value",
};
fn c09(c: &mut Ctx) -> R {
    let (m, _mid, v) = case(c, true);
    let e = env(&m)?;
    label_wkt(c, &m, &v);
    let mut d = e.to_dyn(&v);
    let o = JOpts::random(&mut c.s);
    c.note(|| format!("options: {o:?}"));
    touch(&mut d, &mut c.s, o.skip_default);
    let t = match no_panic("serialize", || to_text(&d, &o, false))? {
        Ok(t) => t,
        Err(x) => return fail("serialize-error", x),
    };
    let want = doc(&m, &v, &o, &mut c.s);
    let got = match parse(&t) {
        Ok(x) => x,
        Err(x) => return fail("not-json", format!("{x}: {t}")),
    };
    if let Err(x) = same(&m, &want, &got, "$") {
        return fail("document", format!("{x}\ngot:  {t}\nwant: {}", text(&want, &mut c.s, false)));
    }
    // the plain Serialize impl uses the default options
    let t2 = no_panic("serialize", || serde_json::to_string(&d))?.map_err(|x| Fail { sig: "serialize-error".into(), msg: x.to_string() })?;
    let o2 = JOpts::canonical();
    let want = doc(&m, &v, &o2, &mut c.s);
    let got = parse(&t2).map_err(|x| Fail { sig: "not-json".into(), msg: x })?;
    if let Err(x) = same(&m, &want, &got, "$") {
        return fail("document", format!("{x}\ngot:  {t2}\nwant: {}", text(&want, &mut c.s, false)));
    }
    Ok(())
}

pub const C10: Prop = Prop {
    id: "C10",
    run: c10,
    quick: 300_000,
    thorough: 7_000_000,
    rule: "case = generated schema + message written as a JSON document in a random equivalent spelling (must parse to the message), then the same document with one definite fault (must be rejected) or, when allowed, one unknown member (must be skipped); non-trivial = at least 2 populated values; distinct = hash of type and value",
};
fn garbage(s: &mut Src, depth: u32) -> J {
    match s.weighted(&[2, 2, 2, 2, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => j(K::Null),
        1 => j(K::Bool(s.flip())),
        2 => j(K::Raw(s.pick(&["0", "1", "-1", "1.5", "1e3", "-0", "4294967296", "18446744073709551615", "-9223372036854775808", "1e300", "0.1", "3.5e38"]).to_string())),
        3 => j(K::Str(match s.below(4) {
            0 => s.string(),
            1 => s.pick(&["", "1", "true", "NaN", "Infinity", "-Infinity", "1.5", "AAAA", "NULL_VALUE", "1s", "1970-01-01T00:00:00Z", "a,b"]).to_string(),
            2 => s.i64v().to_string(),
            _ => s.f64v().to_string(),
        })),
        4 => {
            let n = s.below(4);
            j(K::Arr((0..n).map(|_| garbage(s, depth - 1)).collect()))
        }
        _ => {
            let n = s.below(4);
            j(K::Obj((0..n).map(|i| (format!("{}{i}", s.pick(&["a", "@type", "value", "k"])), garbage(s, depth - 1))).collect()))
        }
    }
}
fn obj1() -> J {
    j(K::Obj(vec![("a".into(), j(K::Raw("1".into())))]))
}
fn arr0(s: &mut Src) -> J {
    if s.flip() { j(K::Arr(vec![])) } else { j(K::Arr(vec![j(K::Raw("1".into()))])) }
}
fn raw(t: impl Into<String>) -> J {
    j(K::Raw(t.into()))
}
fn st(t: impl Into<String>) -> J {
    j(K::Str(t.into()))
}
/// A replacement for the node that no reading of the JSON mapping accepts.
fn fault(s: &mut Src, m: &Model, site: Site, cur: &J) -> Option<J> {
    Some(match site {
        Site::Int(lo, hi) => match s.below(10) {
            9 => {
                let n = wrapping(s, lo, hi);
                if s.flip() { st(n.to_string()) } else { raw(format!("{n}{}", s.pick(&["", "", "", ".0", "e0"]))) }
            }
            0 => {
                // as an integer or as a float
                let n = if s.chance(1, 3) && lo > i64::MIN as i128 { lo - 1 } else { hi + 1 + s.below(3) as i128 };
                raw(format!("{n}{}", s.pick(&["", ".0", "e0", "E+0", ".00", "0e-1"])))
            }
            // (JSON numbers below i64::MIN are read as doubles, so the nearest ones denote i64::MIN)
            1 => raw((lo - if lo < i32::MIN as i128 { 4096 } else { 1 + s.below(3) as i128 }).to_string()),
            2 => raw(*s.pick(&["1.5", "0.1", "1e-1", "-0.5", "100.000001"])),
            3 => raw(*s.pick(&["1e30", "-1e30", "1.8446744073709552e19"])),
            4 => st((hi + 1).to_string()),
            5 => st((lo - 1).to_string()),
            6 => st(*s.pick(&["abc", "", "1.5", "0x1", "1 ", " 1", "--1", "NaN", "Infinity", "1a", "true"])),
            7 => j(K::Bool(s.flip())),
            _ => if s.flip() { arr0(s) } else { obj1() },
        },
        Site::F32 | Site::F64 => match s.below(5) {
            0 => j(K::Bool(s.flip())),
            1 => arr0(s),
            2 => obj1(),
            3 => st(*s.pick(&["abc", "", "1.5.5", "0x1p3", "1 ", "Inf inity", "--1", "-NaN2"])),
            _ => {
                if site == Site::F32 {
                    let x = *s.pick(&["3.5e38", "-3.5e38", "1e39", "1e300", "-1e100"]);
                    if s.flip() { st(x) } else { raw(x) }
                } else {
                    st(*s.pick(&["1e309", "-1e309", "1e999"]))
                }
            }
        },
        Site::Bool => match s.below(5) {
            0 => st(*s.pick(&["true", "false", "", "1"])),
            1 => raw(*s.pick(&["0", "1", "1.0"])),
            2 => arr0(s),
            _ => obj1(),
        },
        Site::Str => match s.below(4) {
            0 => raw(*s.pick(&["0", "1", "1.5", "-7"])),
            1 => j(K::Bool(s.flip())),
            2 => arr0(s),
            _ => obj1(),
        },
        Site::Bytes => match s.below(5) {
            0 => raw(*s.pick(&["0", "12"])),
            1 => st(*s.pick(&["!!!!", "a", "AAAAA", "AA=A", "====", "A A=", "AAA\n", "AA\u{e9}A", "-+==x", "*"])),
            2 => arr0(s),
            3 => j(K::Bool(s.flip())),
            _ => obj1(),
        },
        Site::Enum(_) => match s.below(6) {
            5 => raw(wrapping(s, i32::MIN as i128, i32::MAX as i128).to_string()),
            0 => raw(*s.pick(&["1.5", "2147483648", "-2147483649", "1e30"])),
            1 => st(*s.pick(&["NO_SUCH_VALUE", "", "no such"])),
            2 => j(K::Bool(s.flip())),
            3 => arr0(s),
            _ => obj1(),
        },
        Site::NullEnum => match s.below(3) {
            0 => st(*s.pick(&["NO_SUCH_VALUE", "null", ""])),
            1 => arr0(s),
            _ => obj1(),
        },
        Site::List(_) => match s.below(3) {
            0 => obj1(),
            1 => raw("1"),
            _ => st("x"),
        },
        Site::Map(..) => match s.below(3) {
            0 => arr0(s),
            1 => raw("1"),
            _ => st("x"),
        },
        Site::Msg(mid, any) => match s.below(4) {
            0 => {
                // an unknown member
                let K::Obj(l) = &cur.k else { return None };
                let mut l = l.clone();
                let k = unknown_key(s, m, mid);
                let at = s.us(l.len() + 1);
                l.insert(at, (k, garbage(s, 2)));
                js(K::Obj(l), site)
            }
            1 => return second_oneof_member(s, m, mid, cur),
            _ if any => return None,
            2 => arr0(s),
            _ => {
                if s.flip() {
                    raw("1")
                } else {
                    st("x")
                }
            }
        },
        Site::AnyWkt => {
            let K::Obj(l) = &cur.k else { return None };
            let mut l = l.clone();
            match s.below(4) {
                0 => l.retain(|x| x.0 != "@type"),
                1 => l.retain(|x| x.0 != "value"),
                2 => {
                    let at = s.us(l.len() + 1);
                    l.insert(at, ("extra".into(), garbage(s, 1)))
                }
                _ => l.iter_mut().filter(|x| x.0 == "@type").for_each(|x| x.1 = raw("1")),
            }
            js(K::Obj(l), site)
        }
        Site::Wkt(mid) => return wkt_fault(s, &m.msgs[mid].full_name),
        Site::None => return None,
    })
}
fn wkt_fault(s: &mut Src, name: &str) -> Option<J> {
    Some(match name {
        "google.protobuf.Timestamp" => match s.below(4) {
            0 => raw("0"),
            1 => obj1(),
            _ => st(*s.pick(&BAD_TS)),
        },
        "google.protobuf.Duration" => match s.below(4) {
            0 => raw("0"),
            1 => obj1(),
            _ => st(*s.pick(&BAD_DUR)),
        },
        "google.protobuf.FieldMask" => match s.below(3) {
            0 => raw("0"),
            1 => arr0(s),
            _ => st(*s.pick(&["foo_bar", "a,b_c", "a.b_c", "_"])),
        },
        "google.protobuf.Empty" if s.chance(1, 3) => obj1(),
        "google.protobuf.Empty" | "google.protobuf.Struct" => match s.below(3) {
            0 => raw("0"),
            1 => arr0(s),
            _ => st("{}"),
        },
        "google.protobuf.ListValue" => match s.below(3) {
            0 => raw("0"),
            1 => obj1(),
            _ => st("[]"),
        },
        _ => return None,
    })
}
const BAD_TS: [&str; 36] = [
    "", "x", "1970-01-01", "1970-01-01T00:00:00", "1970-01-01 00:00:00Z", "1970-01-01t00:00:00Z", "1970-01-01T00:00:00z",
    "1970-13-01T00:00:00Z", "1970-00-01T00:00:00Z", "1970-01-00T00:00:00Z", "1970-01-32T00:00:00Z", "1970-02-29T00:00:00Z",
    "1900-02-29T00:00:00Z", "2100-02-29T00:00:00Z", "1970-04-31T00:00:00Z", "2000-02-30T00:00:00Z", "1970-01-01T24:00:01Z",
    "1970-01-01T00:60:00Z", "1970-01-01T00:00:61Z", "0000-01-01T00:00:00Z", "0000-12-31T23:59:59Z", "0001-01-01T00:00:00+00:01",
    "9999-12-31T23:59:59-00:01", "10000-01-01T00:00:00Z", "+1970-01-01T00:00:00Z", "-001-01-01T00:00:00Z", "1970-01-01T00:00:00.Z",
    "1970-01-01T00:00:00Zx", "1970-01-01T00:00:00ZZ", "1970-01-01T00:00:00+1:00", "1970-01-01T00:00:00+01", " 1970-01-01T00:00:00Z",
    "1970-01-01T00:00:00Z ", "1970-1-01T00:00:00Z", "1970-01-01T0:00:00Z", "70-01-01T00:00:00Z",
];
const BAD_DUR: [&str; 18] = [
    "", "s", "1", "1.5", "1S", "1 s", " 1s", "1s ", "--1s", "1.5.5s", "315576000001s", "-315576000001s", "1e3s", "0x1s", "abc", "1ss",
    "99999999999999999999s", "1m",
];
fn unknown_key(s: &mut Src, m: &Model, mid: usize) -> String {
    let md = &m.msgs[mid];
    let mut ks: Vec<String> = vec!["[no.such.ext]".into(), "noSuchField".into(), "[]".into(), "".into(), "[".into()];
    // an existing extension of another message
    if let Some(x) = m.exts.iter().find(|x| x.extendee != mid) {
        ks.push(format!("[{}]", x.full_name));
        ks.push(x.full_name.clone());
    }
    // an extension by other than its full name
    let xs: Vec<_> = m.exts.iter().filter(|x| x.extendee == mid).collect();
    if !xs.is_empty() {
        let x = *s.pick(&xs);
        let mut more = vec![x.full_name.clone(), format!("[.{}]", x.full_name), format!("[{}", x.full_name), format!("{}]", x.full_name), format!("[{}] ", x.full_name)];
        for (i, _) in x.full_name.match_indices('.') {
            more.push(format!("[{}]", &x.full_name[i + 1..]));
        }
        more.push(format!("[{}]", x.full_name.to_uppercase()));
        let k = s.pick(&more).clone();
        ks.push(k.clone());
        ks.push(k);
    }
    if !md.fields.is_empty() {
        let f = s.pick(&md.fields);
        let j = m.json_name(f);
        let mut more = vec![
            format!("{}!", f.name),
            format!("{}_", j),
            format!(" {}", f.name),
            format!("[{}]", f.name),
            f.name.to_uppercase(),
            j.to_lowercase(),
            j.to_uppercase(),
            f.number.to_string(),
            format!("{}.{}", md.full_name, f.name),
            f.name.replace('_', ""),
            f.name.replace('_', "-"),
            format!("{}\u{0}", f.name),
        ];
        if let Ty::Group(g) = f.ty {
            more.push(m.msgs[g].name.clone());
        }
        let k = s.pick(&more).clone();
        ks.push(k.clone());
        ks.push(k);
    }
    ks.push(md.oneofs.first().map(|o| format!("{}__", o.name)).unwrap_or("__".into()));
    ks.extend(md.oneofs.first().map(|o| o.name.clone()));
    ks.retain(|k| {
        !md.fields.iter().any(|f| f.name == *k || m.json_name(f) == *k)
            && !m.exts.iter().any(|x| x.extendee == mid && format!("[{}]", x.full_name) == *k)
    });
    s.pick(&ks).clone()
}
/// A number out of range that is in range when its high bits are lost.
fn wrapping(s: &mut Src, lo: i128, hi: i128) -> i128 {
    let k = s.below(7) as i128 - 3;
    let base = *s.pick(&[1i128 << 31, 1 << 32, 1 << 33, 1 << 62, 1 << 63, 1 << 64, (1 << 63) + (1 << 32), 1 << 65]);
    let n = if s.chance(1, 3) { k - base } else { base + k };
    let near = -(1i128 << 63) - 4096..-(1i128 << 63); // (read as doubles, they denote i64::MIN)
    if n > hi && !(hi >= u64::MAX as i128 && n <= hi + 4096 && n <= u64::MAX as i128) || n < lo && !near.contains(&n) { n } else { hi + 1 }
}
/// Adds a second member to a oneof that has one.
fn second_oneof_member(s: &mut Src, m: &Model, mid: usize, cur: &J) -> Option<J> {
    let K::Obj(l) = &cur.k else { return None };
    let md = &m.msgs[mid];
    let present = |f: &FieldDef| {
        l.iter().any(|(k, v)| (*k == f.name && !m.shadowed(mid, f) || *k == m.json_name(f)) && (v.k != K::Null || null_is_value(m, f.ty)))
    };
    let mut cands = vec![];
    for f in &md.fields {
        if let Some(o) = f.oneof {
            let used = l.iter().any(|(k, _)| *k == f.name || *k == m.json_name(f));
            if !used && md.fields.iter().any(|g| g.oneof == Some(o) && g.number != f.number && present(g)) {
                cands.push(f);
            }
        }
    }
    if cands.is_empty() {
        return None;
    }
    let f = *s.pick(&cands);
    let mut vc = vcfg();
    vc.budget = 4;
    vc.unknown_enum = false;
    let v = gen_field_value(s, m, mid, FRef::F(f), 1, &mut vc);
    let d = field_doc(m, f, &v, &JOpts::spelled(), s);
    let mut l = l.clone();
    let at = s.us(l.len() + 1);
    let name = if s.flip() && !m.shadowed(mid, f) { f.name.clone() } else { m.json_name(f) };
    l.insert(at, (name, d));
    Some(J { k: K::Obj(l), site: cur.site })
}
fn c10(c: &mut Ctx) -> R {
    let (m, mid, v) = case(c, false);
    let e = env(&m)?;
    let desc = &e.msgs[mid];
    let d = doc(&m, &v, &JOpts::spelled(), &mut c.s);
    let t = text(&d, &mut c.s, true);
    let deny = !c.s.flip();
    c.note(|| format!("spelled: {t}\ndeny_unknown {deny}"));
    let r = no_panic("parse", || if t.len() % 2 == 0 { from_text(desc, &t, deny) } else { from_reader(desc, &t, deny) })?;
    match r {
        Ok(x) => {
            let got = e.from_dyn(&x);
            ensure!(any_equal(&m, &got, &v), "spelling-value", "{t}: {}", diff(&m, &v, &got));
        }
        Err(x) => return fail("spelling-rejected", format!("{x}: {t}")),
    }
    // unknown members are skipped when allowed
    let ns = nodes(&d);
    let msgs: Vec<_> = ns.iter().filter(|n| match n.1 {
        Site::Msg(..) | Site::AnyWkt => true,
        Site::Wkt(w) => m.msgs[w].full_name == "google.protobuf.Empty",
        _ => false,
    }).collect();
    if !msgs.is_empty() && c.s.chance(1, 3) {
        let (p, site) = (*c.s.pick(&msgs)).clone();
        let mut d2 = d.clone();
        let k = match site {
            Site::Msg(nm, _) => unknown_key(&mut c.s, &m, nm),
            _ => {
                c.label("unknown-in-wkt");
                c.s.pick(&["a", "extra", "", "type", "@typ", "value1", "Value", "@value"]).to_string()
            }
        };
        let g = garbage(&mut c.s, 3);
        if let K::Obj(l) = &mut at(&mut d2, &p).k {
            let i = c.s.us(l.len() + 1);
            l.insert(i, (k.clone(), g));
        }
        let t = text(&d2, &mut c.s, false);
        match no_panic("parse", || from_text(desc, &t, false))? {
            Ok(x) => {
                let got = e.from_dyn(&x);
                ensure!(any_equal(&m, &got, &v), "unknown-skip", "unknown member {k:?} changes the message: {t}: {}", diff(&m, &v, &got));
            }
            Err(x) => return fail("unknown-skip", format!("unknown member {k:?} not skipped: {x}: {t}")),
        }
        c.label("unknown-skipped");
    }
    if c.s.chance(1, 3) {
        // so are enum values of unknown names
        let mut d2 = d.clone();
        let mut done = false;
        let name = j(K::Str(c.s.pick(&["NO_SUCH_VALUE", "no such", "", "no_such_value"]).to_string()));
        let holders: Vec<_> = ns.iter().filter(|n| matches!(n.1, Site::Msg(..) | Site::List(_) | Site::Map(..))).collect();
        if !holders.is_empty() {
            let (p, site) = (*c.s.pick(&holders)).clone();
            let node = at(&mut d2, &p);
            match (site, &mut node.k) {
                (Site::Msg(nm, _), K::Obj(l)) => {
                    let plain = |t: Ty| matches!(t, Ty::Enum(_));
                    let fs: Vec<&FieldDef> = m.msgs[nm]
                        .fields
                        .iter()
                        .filter(|f| f.oneof.is_none() && (plain(f.ty) || m.is_map(f) && plain(m.map_kv(f).1.ty)))
                        .filter(|f| l.iter().all(|(k, _)| *k != m.json_name(f) && *k != f.name))
                        .collect();
                    if !fs.is_empty() {
                        let f = *c.s.pick(&fs);
                        let x = if m.is_map(f) {
                            let (kf, _) = m.map_kv(f);
                            let k = gen_scalar(&mut c.s, &m, kf.ty, &vcfg()).to_key().unwrap();
                            j(K::Obj(vec![(crate::json::key_text(&k), name)]))
                        } else if f.card == Card::Repeated {
                            j(K::Arr(vec![name; 1 + c.s.us(3)]))
                        } else {
                            name
                        };
                        let i = c.s.us(l.len() + 1);
                        l.insert(i, (m.json_name(f), x));
                        done = true;
                    }
                }
                (Site::List(_), K::Arr(l)) if l.iter().any(|x| matches!(x.site, Site::Enum(_) | Site::NullEnum)) => {
                    let i = c.s.us(l.len() + 1);
                    l.insert(i, name);
                    done = true;
                }
                (Site::Map(kt, _), K::Obj(l)) if l.iter().any(|(_, x)| matches!(x.site, Site::Enum(_) | Site::NullEnum)) => {
                    let k = crate::json::key_text(&gen_scalar(&mut c.s, &m, kt, &vcfg()).to_key().unwrap());
                    if l.iter().all(|x| x.0 != k) {
                        let i = c.s.us(l.len() + 1);
                        l.insert(i, (k, name));
                        done = true;
                    }
                }
                _ => {}
            }
        }
        if done {
            let t = text(&d2, &mut c.s, false);
            match no_panic("parse", || from_text(desc, &t, false))? {
                Ok(x) => {
                    let got = e.from_dyn(&x);
                    ensure!(any_equal(&m, &got, &v), "unknown-enum", "an enum value of an unknown name changes the message: {t}: {}", diff(&m, &v, &got));
                }
                Err(x) => return fail("unknown-enum", format!("an enum value of an unknown name is not skipped: {x}: {t}")),
            }
            if let Ok(x) = no_panic("parse", || from_text(desc, &t, true))? {
                return fail("unknown-enum-accepted", format!("an enum value of an unknown name is accepted: {t}\nas {:?}", e.from_dyn(&x)));
            }
            c.label("unknown-enum-name");
        }
    }
    // one definite fault
    let cands: Vec<_> = ns.iter().filter(|n| n.1 != Site::None).collect();
    if cands.is_empty() {
        return Ok(());
    }
    let (p, site) = (*c.s.pick(&cands)).clone();
    let mut d2 = d.clone();
    let node = at(&mut d2, &p);
    let bad = if let (Site::List(null_ok), K::Arr(l), true) = (site, &node.k, c.s.flip()) {
        if null_ok {
            return Ok(());
        }
        let mut l = l.clone();
        let i = c.s.us(l.len() + 1);
        l.insert(i, j(K::Null));
        Some(js(K::Arr(l), site))
    } else if let (Site::Map(kt, null_ok), K::Obj(l), true) = (site, &node.k, c.s.flip()) {
        let mut l = l.clone();
        if !l.is_empty() && !null_ok && c.s.flip() {
            let i = c.s.us(l.len());
            l[i].1 = j(K::Null);
            Some(js(K::Obj(l), site))
        } else if !l.is_empty() && kt != Ty::String {
            let i = c.s.us(l.len());
            let (lo, hi) = int_range(kt);
            let old = l[i].0.clone();
            l[i].0 = match (kt, c.s.below(8)) {
                (_, 4) => format!("{}{old}", c.s.pick(&[" ", "\t", "\n", "\u{a0}"])),
                (_, 5) => format!("{old}{}", c.s.pick(&[" ", "\n", "\0"])),
                (_, 6) => format!("{old}{}", c.s.pick(&["a", "f", "u", "_", ";"])),
                (_, 7) => format!("{}{old}{}", c.s.pick(&["\"", "'", "("]), c.s.pick(&["\"", "'", ")"])),
                (Ty::Bool, 0) => "1".into(),
                (Ty::Bool, 1) => "True".into(),
                (Ty::Bool, 2) => c.s.pick(&["TRUE", "False", "t", "yes", "on", "0", "null"]).to_string(),
                (Ty::Bool, _) => "x".into(),
                (_, 0) => (hi + 1).to_string(),
                (_, 1) => (lo - 1).to_string(),
                (_, 2) => "1.5".into(),
                _ => "".into(),
            };
            Some(js(K::Obj(l), site))
        } else {
            None
        }
    } else {
        fault(&mut c.s, &m, site, node)
    };
    let Some(bad) = bad else { return Ok(()) };
    *node = bad;
    let t = text(&d2, &mut c.s, false);
    c.label(&format!("fault:{}", format!("{site:?}").split(['(', ' ']).next().unwrap()));
    if let Ok(x) = no_panic("parse", || from_text(desc, &t, true))? {
        return fail(
            "fault-accepted",
            format!("fault at {p:?} ({site:?}) accepted: {t}\nas {:?}", e.from_dyn(&x)),
        );
    }
    Ok(())
}

pub const C11: Prop = Prop {
    id: "C11",
    run: c11,
    quick: 400_000,
    thorough: 10_000_000,
    rule: "case = generated schema + JSON text: schema-shaped garbage, a valid document with several random edits, mutated text, or deep nesting; oracle = no panic/crash, accepted values have their field's type, accepted content prints and parses back equal; non-trivial = the document is an object with at least one member naming a field, or is accepted; distinct = hash of the text",
};
/// Every populated value is of its field's type.
pub fn well_typed(m: &Model, r: &RMsg) -> Result<(), String> {
    for (n, v) in &r.f {
        let f = m.field(r.mid, *n).unwrap().def();
        if super::reflectp::fits(m, f, v) != Some(true) {
            return Err(format!("field {} of {} holds {v:?}", f.name, m.msgs[r.mid].full_name));
        }
        let mut bad = Ok(());
        match v {
            RVal::Msg(x) => bad = well_typed(m, x),
            RVal::List(l) => {
                for v in l {
                    if let RVal::Msg(x) = v {
                        bad = bad.and(well_typed(m, x));
                    }
                }
            }
            RVal::Map(l) => {
                for v in l.values() {
                    if let RVal::Msg(x) = v {
                        bad = bad.and(well_typed(m, x));
                    }
                }
            }
            _ => {}
        }
        bad?;
    }
    Ok(())
}
fn junk_for(s: &mut Src, m: &Model, f: &FieldDef, depth: u32) -> J {
    if s.chance(1, 5) {
        return garbage(s, 2);
    }
    if m.is_map(f) {
        let (k, v) = m.map_kv(f);
        let n = s.below(3);
        let es = (0..n)
            .map(|_| {
                let key = match s.below(4) {
                    0 => s.string(),
                    _ => key_text(&gen_scalar(s, m, k.ty, &VCfg::default()).to_key().unwrap()),
                };
                (key, junk_ty(s, m, v.ty, depth))
            })
            .collect();
        return j(K::Obj(es));
    }
    if f.card == Card::Repeated {
        let n = s.below(4);
        return j(K::Arr((0..n).map(|_| junk_ty(s, m, f.ty, depth)).collect()));
    }
    junk_ty(s, m, f.ty, depth)
}
fn junk_ty(s: &mut Src, m: &Model, ty: Ty, depth: u32) -> J {
    if s.chance(1, 8) {
        return garbage(s, 1);
    }
    match ty {
        Ty::Message(x) | Ty::Group(x) => {
            if depth == 0 { j(K::Obj(vec![])) } else { junk_msg(s, m, x, depth - 1) }
        }
        _ => {
            let v = gen_scalar(s, m, ty, &VCfg::default());
            let mut d = scalar_doc(m, ty, &v, &JOpts::spelled(), s);
            if s.chance(1, 8) {
                if let Some(b) = fault(s, m, d.site, &d) {
                    d = b;
                }
            }
            d
        }
    }
}
fn junk_msg(s: &mut Src, m: &Model, mid: usize, depth: u32) -> J {
    let name = m.msgs[mid].full_name.as_str();
    if is_wkt(name) && !s.chance(1, 6) {
        let mut vc = VCfg { json_safe: true, budget: 8, ..Default::default() };
        let v = gen_msg(s, m, mid, depth.min(2), &mut vc);
        let mut d = doc(m, &v, &JOpts::spelled(), s);
        if s.chance(1, 4) {
            let ns = nodes(&d);
            let p = s.pick(&ns).0.clone();
            let g = garbage(s, 2);
            let n = at(&mut d, &p);
            *n = if s.flip() { g } else { fault(s, m, n.site, n).unwrap_or(g) };
        }
        if let (K::Str(t), true) = (&mut d.k, s.chance(1, 3)) {
            // scrambled timestamp, duration or mask text
            let mut cs: Vec<char> = t.chars().collect();
            if !cs.is_empty() {
                let i = s.us(cs.len());
                match s.below(3) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs[i] = *s.pick(&['0', '9', '.', '-', '+', ':', 'T', 'Z', 's', 'e', ',', '_', 'é', ' ', 'A']),
                    _ => cs.insert(i, *s.pick(&['0', '9', '.', '-', '+', ':', 's', ',', 'é'])),
                }
            }
            *t = cs.into_iter().collect();
        }
        return d;
    }
    let mut es = vec![];
    for f in &m.msgs[mid].fields {
        if s.flip() {
            let k = if s.flip() { f.name.clone() } else { m.json_name(f) };
            es.push((k, junk_for(s, m, f, depth)));
        }
    }
    for x in m.exts.iter().filter(|x| x.extendee == mid) {
        if s.flip() {
            es.push((format!("[{}]", x.full_name), junk_for(s, m, &x.f, depth)));
        }
    }
    if s.chance(1, 6) {
        es.push((unknown_key(s, m, mid), garbage(s, 2)));
    }
    if !es.is_empty() && s.chance(1, 8) {
        let x = s.pick(&es).clone();
        es.push(x);
    }
    s.shuffle(&mut es);
    j(K::Obj(es))
}
fn deep(s: &mut Src, m: &Model, mid: usize) -> String {
    let n = *s.pick(&[100usize, 120, 127, 128, 129, 1000, 100_000]);
    // along a recursive field when there is one
    let rec = m.msgs[mid].fields.iter().find(|f| f.ty.msg() == Some(mid) || f.ty.msg().map_or(false, |x| m.msgs[x].full_name.ends_with("Value")));
    let (open, close) = match (rec, s.below(4)) {
        (Some(f), 0 | 1) if f.card == Card::Repeated => (format!("{{\"{}\":[", f.name), "]}".to_string()),
        (Some(f), 0 | 1) => (format!("{{\"{}\":", f.name), "}".to_string()),
        (_, 2) => ("{\"a\":".into(), "}".into()),
        (_, 3) => ("{\"@type\":\"t/google.protobuf.Value\",\"value\":".into(), "}".into()),
        _ => ("[".into(), "]".into()),
    };
    let mut o = open.repeat(n);
    o += *s.pick(&["{}", "1", "null", "\"x\""]);
    if !s.chance(1, 4) {
        o += &close.repeat(n);
    }
    if o.len() > 4_000_000 {
        o.truncate(4_000_000);
    }
    match m.msgs[mid].fields.first() {
        Some(f) if s.flip() => format!("{{\"{}\":{o}}}", f.name.replace('"', "")),
        _ => o,
    }
}
fn c11(c: &mut Ctx) -> R {
    let m = gen_model(&mut c.s, &cfg());
    let mids: Vec<usize> = (0..m.msgs.len())
        .filter(|&i| !m.msgs[i].map_entry && (!m.files[m.msgs[i].file].wkt || is_wkt(&m.msgs[i].full_name)))
        .collect();
    let us = user_msgs(&m);
    let mid = if c.s.chance(1, 4) { *c.s.pick(&mids) } else { *c.s.pick(&us) };
    let e = env(&m)?;
    let desc = &e.msgs[mid];
    let kind = c.s.weighted(&[40, 30, 20, 1]);
    let t = match kind {
        0 => {
            let d = junk_msg(&mut c.s, &m, mid, 3);
            c.nontrivial = matches!(&d.k, K::Obj(l) if !l.is_empty());
            text(&d, &mut c.s, true)
        }
        1 => {
            let mut vc = vcfg();
            let v = gen_msg(&mut c.s, &m, mid, 3, &mut vc);
            let mut d = doc(&m, &v, &JOpts::spelled(), &mut c.s);
            for _ in 0..c.s.below(3) {
                let ns = nodes(&d);
                let p = c.s.pick(&ns).0.clone();
                let g = garbage(&mut c.s, 2);
                *at(&mut d, &p) = g;
            }
            text(&d, &mut c.s, true)
        }
        2 => {
            let mut vc = vcfg();
            let v = gen_msg(&mut c.s, &m, mid, 3, &mut vc);
            let d = doc(&m, &v, &JOpts::spelled(), &mut c.s);
            let t = text(&d, &mut c.s, false);
            let mut cs: Vec<char> = t.chars().collect();
            for _ in 0..1 + c.s.below(4) {
                if cs.is_empty() {
                    break;
                }
                let i = c.s.us(cs.len());
                match c.s.below(4) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs[i] = c.s.ch(),
                    2 => cs.insert(i, *c.s.pick(&['{', '}', '[', ']', '"', ',', ':', '0', '-', '.', 'e', '\\', 'u', 'n', 't'])),
                    _ => {
                        let j2 = i + c.s.us(8);
                        let part: Vec<char> = cs[i..j2.min(cs.len())].to_vec();
                        cs.splice(i..i, part);
                    }
                }
            }
            cs.into_iter().collect()
        }
        _ => deep(&mut c.s, &m, mid),
    };
    let deny = !c.s.flip();
    c.label(["shaped", "edited", "mutated", "deep"][kind]);
    c.note(|| {
        let mut x: String = t.chars().take(3000).collect();
        if x.len() < t.len() {
            x += "...";
        }
        format!("schema: {}\nmessage type: {}\ntext: {x}\ndeny_unknown {deny}", describe(&m), m.msgs[mid].full_name)
    });
    c.digest(t.as_bytes());
    let r = no_panic("parse", || from_text(desc, &t, deny))?;
    // the serde_json::Value carrier sees the same document
    if kind != 3 {
        if let Ok(x) = serde_json::from_str::<serde_json::Value>(&t) {
            let o = DeserializeOptions::new().deny_unknown_fields(deny);
            no_panic("parse-value", || DynamicMessage::deserialize_with_options(desc.clone(), x, &o).map_err(|e| e.to_string()))?.ok();
        }
    }
    let d = match r {
        Ok(d) => d,
        Err(_) => {
            c.label("rejected");
            return Ok(());
        }
    };
    c.label("accepted");
    c.nontrivial = true;
    let got = no_panic("read", || e.from_dyn(&d))?;
    if let Err(x) = well_typed(&m, &got) {
        return fail("ill-typed", format!("{x}\nfrom {}", cut(&t)));
    }
    let out = match no_panic("serialize", || to_text(&d, &JOpts::canonical(), false))? {
        Ok(x) => x,
        Err(x) => return fail("reserialize", format!("accepted but does not print: {x}\nfrom {}", cut(&t))),
    };
    match no_panic("parse", || from_text(desc, &out, true))? {
        Ok(b) => {
            let b = e.from_dyn(&b);
            let want = got;
            ensure!(any_equal(&m, &b, &want), "reparse", "{}\nfrom {}\nprinted {out}", diff(&m, &want, &b), cut(&t));
        }
        Err(x) => return fail("reparse", format!("printed form rejected: {x}: {out}\nfrom {}", cut(&t))),
    }
    Ok(())
}
pub fn cut(t: &str) -> String {
    t.chars().take(3000).collect()
}

pub const C12: Prop = Prop {
    id: "C12",
    run: c12,
    quick: 3_000_000,
    thorough: 12_000_000,
    rule: "case = well-known type value (valid, near the limits, or arbitrary) at top level, in a field, list, map or Any; oracle = independent calendar/duration/mask/struct forms for valid values, rejection or exact preservation for the rest, fixed malformed forms rejected; non-trivial = value not the type's default; distinct = hash of type and value",
};
fn holder() -> &'static (Model, usize) {
    use std::sync::OnceLock;
    static H: OnceLock<(Model, usize)> = OnceLock::new();
    H.get_or_init(|| {
        // one message with a singular, repeated, map and oneof field per well-known type
        let mut m = (*wkt_model()).clone();
        let fi = m.files.len();
        let deps = (0..fi).collect();
        m.files.push(FileDef { name: "h.proto".into(), package: "h".into(), proto3: true, syntax: Some("proto3".into()), deps, ..Default::default() });
        let mid = m.msgs.len();
        m.msgs.push(MsgDef { name: "H".into(), full_name: "h.H".into(), file: fi, ..Default::default() });
        m.files[fi].msgs.push(mid);
        let mut n = 0;
        m.msgs[mid].oneofs.push(OneofDef { name: "o".into(), synthetic: false });
        let base = FieldDef {
            name: String::new(), number: 0, card: Card::Optional, ty: Ty::Int32, oneof: None, proto3_optional: false, packed: None,
            bare_options: false, deprecated: None, json_name: None, default: None,
        };
        for part in 0..4 {
            for (k, w) in WKT_NAMES.iter().enumerate() {
                n += 1;
                let t = m.find_msg(w).unwrap();
                let mut f = FieldDef { name: format!("f{part}x{k}"), number: n, ty: Ty::Message(t), ..base.clone() };
                match part {
                    0 => {}
                    1 => f.card = Card::Repeated,
                    2 => f.oneof = Some(0),
                    _ => {
                        let eid = m.msgs.len();
                        let ename = map_entry_name(&f.name);
                        m.msgs.push(MsgDef { full_name: format!("h.H.{ename}"), name: ename, file: fi, parent: Some(mid), map_entry: true, ..Default::default() });
                        m.msgs[mid].nested.push(eid);
                        m.msgs[eid].fields.push(FieldDef { name: "key".into(), number: 1, ty: Ty::String, ..base.clone() });
                        m.msgs[eid].fields.push(FieldDef { name: "value".into(), number: 2, ..f.clone() });
                        f.card = Card::Repeated;
                        f.ty = Ty::Message(eid);
                    }
                }
                m.msgs[mid].fields.push(f);
            }
        }
        (m, mid)
    })
}
/// Puts a well-known value into a place: 0 top level, 1 field, 2 list, 3 oneof, 4 map, 5 Any, 6 Any in a field.
fn place(m: &Model, h: usize, x: &RMsg, how: u64, s: &mut Src) -> RMsg {
    let k = WKT_NAMES.iter().position(|w| *w == m.msgs[x.mid].full_name).unwrap() as u32;
    let n = WKT_NAMES.len() as u32;
    let mut o = RMsg::new(h);
    match how {
        0 => return x.clone(),
        1 => {
            o.f.insert(k + 1, RVal::Msg(x.clone()));
        }
        2 => {
            o.f.insert(n + k + 1, RVal::List(vec![RVal::Msg(x.clone())]));
        }
        3 => {
            o.f.insert(2 * n + k + 1, RVal::Msg(x.clone()));
        }
        4 => {
            let key = s.string();
            o.f.insert(3 * n + k + 1, RVal::Map(BTreeMap::from([(RKey::Str(key), RVal::Msg(x.clone()))])));
        }
        _ => {
            let am = m.find_msg("google.protobuf.Any").unwrap();
            let mut a = RMsg::new(am);
            a.f.insert(1, RVal::Str(format!("type.googleapis.com/{}", m.msgs[x.mid].full_name)));
            let b = crate::wire::enc(m, x);
            if !b.is_empty() {
                a.f.insert(2, RVal::Bytes(b));
            }
            if how == 5 {
                return a;
            }
            o.f.insert(1, RVal::Msg(a));
        }
    }
    o
}
fn wkt_msg(m: &Model, name: &str) -> RMsg {
    RMsg::new(m.find_msg(name).unwrap())
}
fn c12(c: &mut Ctx) -> R {
    let (m, h) = holder();
    let h = *h;
    thread_local! {
        static E: std::cell::RefCell<Option<&'static Env<'static>>> = const { std::cell::RefCell::new(None) };
    }
    let e: &'static Env<'static> = E.with(|x| {
        let mut x = x.borrow_mut();
        if x.is_none() {
            let (m, _) = holder();
            *x = Some(Box::leak(Box::new(Env::new(m).unwrap())));
        }
        x.unwrap()
    });
    let mode = c.s.weighted(&[5, 5, 2, 1, 2]);
    match mode {
        0 => {
            // valid values: exact form, all spellings
            let name = *c.s.pick(&WKT_NAMES);
            let mut vc = VCfg { json_safe: true, budget: 12, ..Default::default() };
            let x = gen_msg(&mut c.s, m, m.find_msg(name).unwrap(), 3, &mut vc);
            let how = c.s.below(7);
            c.label(&format!("valid:{}", name.rsplit('.').next().unwrap()));
            c.note(|| format!("{name} {x:?} placed {how}"));
            c.digest(format!("{name}{x:?}{how}").as_bytes());
            c.nontrivial = !x.f.is_empty();
            let v = place(m, h, &x, how, &mut c.s);
            let d = e.to_dyn(&v);
            let o = JOpts::random(&mut c.s);
            let o = JOpts { skip_default: true, ..o };
            let t = match no_panic("serialize", || to_text(&d, &o, false))? {
                Ok(t) => t,
                Err(x) => return fail("valid-unprintable", x),
            };
            let want = doc(m, &v, &o, &mut c.s);
            let got = parse(&t).map_err(|x| Fail { sig: "not-json".into(), msg: x })?;
            if let Err(x) = same(m, &want, &got, "$") {
                return fail("form", format!("{x}\ngot: {t}"));
            }
            let sp = doc(m, &v, &JOpts::spelled(), &mut c.s);
            let sp = text(&sp, &mut c.s, true);
            for t in [&t, &sp] {
                match no_panic("parse", || from_text(&e.msgs[v.mid], t, true))? {
                    Ok(b) => {
                        let b = e.from_dyn(&b);
                        ensure!(any_equal(m, &b, &v), "altered", "{t}: {}", diff(m, &v, &b));
                    }
                    Err(x) => return fail("valid-rejected", format!("{x}: {t}")),
                }
            }
        }
        1 => {
            // arbitrary content: rejected, or preserved exactly
            let (x, ok) = wild(&mut c.s, m);
            let name = m.msgs[x.mid].full_name.clone();
            let how = c.s.below(7);
            c.label(&format!("wild:{}", name.rsplit('.').next().unwrap()));
            c.note(|| format!("{name} {x:?} placed {how} representable: {ok:?}"));
            c.digest(format!("{name}{x:?}{how}").as_bytes());
            c.nontrivial = !x.f.is_empty();
            let v = place(m, h, &x, how, &mut c.s);
            let d = e.to_dyn(&v);
            let r = no_panic("serialize", || to_text(&d, &JOpts::canonical(), false))?;
            match (r, ok) {
                (Err(x), Some(true)) => return fail("valid-unprintable", x),
                (Ok(t), Some(false)) => return fail("invalid-printed", t),
                (Err(_), _) => c.label("refused"),
                (Ok(t), _) => {
                    c.label("printed");
                    match no_panic("parse", || from_text(&e.msgs[v.mid], &t, true))? {
                        Ok(b) => {
                            let b = e.from_dyn(&b);
                            ensure!(any_equal(m, &b, &v), "altered", "printed as {t}, which reads as another value: {}", diff(m, &v, &b));
                        }
                        Err(x) => return fail("printed-rejected", format!("{x}: {t}")),
                    }
                }
            }
        }
        2 => {
            // malformed forms are rejected
            let name = *c.s.pick(&WKT_NAMES);
            let mid = m.find_msg(name).unwrap();
            let bad = malformed(&mut c.s, m, name);
            let Some(bad) = bad else { return Ok(()) };
            c.label(&format!("malformed:{}", name.rsplit('.').next().unwrap()));
            let how = c.s.below(4);
            let k = WKT_NAMES.iter().position(|w| *w == name).unwrap();
            let t = text(&bad, &mut c.s, true);
            let (t, dm) = match how {
                0 => (t, mid),
                1 => (format!("{{\"f0x{k}\":{t}}}"), h),
                2 => (format!("{{\"f1x{k}\":[{t}]}}"), h),
                _ => (format!("{{\"f3x{k}\":{{\"q\":{t}}}}}"), h),
            };
            c.note(|| format!("{name} from {t}"));
            c.digest(t.as_bytes());
            c.nontrivial = true;
            if let Ok(x) = no_panic("parse", || from_text(&e.msgs[dm], &t, true))? {
                return fail("malformed-accepted", format!("{t} accepted as {:?}", e.from_dyn(&x)));
            }
        }
        4 => {
            // edited spellings of timestamps and durations
            let ts = c.s.flip();
            let (t, want) = if ts {
                let (a, b) = gen_ts(&mut c.s);
                let t = ts_text(a, b as u32, &mut c.s, true);
                let t = edit_text(&mut c.s, &t, "0123456789-+:TZtz. ");
                let w = read_ts(&t);
                (t, w)
            } else {
                let (a, b) = gen_dur(&mut c.s);
                let t = dur_text(a, b, &mut c.s, true);
                let t = edit_text(&mut c.s, &t, "0123456789-+s. em");
                let w = read_dur(&t);
                (t, w)
            };
            let Some(want) = want else { return Ok(()) };
            let name = if ts { "Timestamp" } else { "Duration" };
            c.label(&format!("edited:{name}:{}", if want.is_some() { "valid" } else { "invalid" }));
            c.note(|| format!("{name} from {t:?}, which denotes {want:?}"));
            c.digest(t.as_bytes());
            c.nontrivial = true;
            let mid = m.find_msg(&format!("google.protobuf.{name}")).unwrap();
            let r = no_panic("parse", || from_text(&e.msgs[mid], &format!("{t:?}"), true))?;
            match (r, want) {
                (Ok(x), None) => return fail("edited-accepted", format!("{t:?} accepted as {:?}", e.from_dyn(&x))),
                (Err(x), Some(_)) => return fail("edited-rejected", format!("{x}: {t:?}")),
                (Ok(x), Some((a, b))) => {
                    let mut w = RMsg::new(mid);
                    nz(&mut w, 1, RVal::I64(a), a == 0);
                    nz(&mut w, 2, RVal::I32(b), b == 0);
                    let x = e.from_dyn(&x);
                    ensure!(x == w, "edited-value", "{t:?}: {}", diff(m, &w, &x));
                }
                _ => {}
            }
        }
        _ => {
            // unresolvable or undecodable Any
            let mut a = wkt_msg(m, "google.protobuf.Any");
            let url = *c.s.pick(&[
                "type.googleapis.com/no.Such", "no.Such", "", "type.googleapis.com/", "type.googleapis.com/google.protobuf.NullValue",
                "type.googleapis.com/google.protobuf.Timestamp", "type.googleapis.com/h.H", "x/h.H.F3x0Entryy",
            ]);
            let val: Vec<u8> = (*c.s.pick(&[&[][..], &[0x08], &[0xff, 0xff], &[0x0f], &[0x0a, 0x05, 1]])).to_vec();
            let known = url.ends_with("h.H") || url.ends_with("Timestamp");
            if known && val.is_empty() {
                return Ok(());
            }
            // (the empty Any has its own form in newer specifications: not judged)
            if url.is_empty() {
                return Ok(());
            }
            c.label("bad-any");
            if !url.is_empty() {
                a.f.insert(1, RVal::Str(url.into()));
            }
            if !val.is_empty() {
                a.f.insert(2, RVal::Bytes(val));
            }
            c.note(|| format!("{a:?}"));
            c.digest(format!("{a:?}").as_bytes());
            c.nontrivial = true;
            let d = e.to_dyn(&a);
            if let Ok(t) = no_panic("serialize", || to_text(&d, &JOpts::canonical(), false))? {
                return fail("bad-any-printed", t);
            }
            if !known {
                let t = format!("{{\"@type\":\"{url}\"}}");
                if let Ok(x) = no_panic("parse", || from_text(&e.msgs[a.mid], &t, !c.s.flip()))? {
                    return fail("bad-any-accepted", format!("{t} as {:?}", e.from_dyn(&x)));
                }
            }
        }
    }
    Ok(())
}
fn nz(o: &mut RMsg, n: u32, v: RVal, zero: bool) {
    if !zero {
        o.f.insert(n, v);
    }
}
/// A well-known value without regard to validity, and whether JSON can represent it (if settled).
fn wild(s: &mut Src, m: &Model) -> (RMsg, Option<bool>) {
    let secs = |s: &mut Src, lo: i64, hi: i64| match s.below(4) {
        0 => s.range(-3, 3),
        1 => lo.saturating_add(s.range(-3, 3)),
        2 => hi.saturating_add(s.range(-3, 3)),
        _ => s.i64v(),
    };
    let nanos = |s: &mut Src| match s.below(4) {
        0 => s.range(-2, 2) as i32,
        1 => 1_000_000_000 + s.range(-2, 2) as i32,
        2 => -1_000_000_000 + s.range(-2, 2) as i32,
        _ => s.i32v(),
    };
    match s.below(5) {
        0 => {
            let mut x = wkt_msg(m, "google.protobuf.Timestamp");
            let (a, b) = (secs(s, wkt::TS_MIN, wkt::TS_MAX), nanos(s));
            nz(&mut x, 1, RVal::I64(a), a == 0);
            nz(&mut x, 2, RVal::I32(b), b == 0);
            (x, Some((wkt::TS_MIN..=wkt::TS_MAX).contains(&a) && (0..1_000_000_000).contains(&b)))
        }
        1 => {
            let mut x = wkt_msg(m, "google.protobuf.Duration");
            let (a, b) = (secs(s, -wkt::DUR_MAX, wkt::DUR_MAX), nanos(s));
            nz(&mut x, 1, RVal::I64(a), a == 0);
            nz(&mut x, 2, RVal::I32(b), b == 0);
            let sign = !(a > 0 && b < 0 || a < 0 && b > 0);
            let ok = a.unsigned_abs() <= wkt::DUR_MAX as u64 && b.unsigned_abs() < 1_000_000_000 && sign;
            // the limit is given for the seconds; a fraction beyond it is not judged
            let edge = a.unsigned_abs() == wkt::DUR_MAX as u64 && b != 0;
            (x, if edge && ok { None } else { Some(ok) })
        }
        2 => {
            let mut x = wkt_msg(m, "google.protobuf.FieldMask");
            let n = 1 + s.below(2);
            let mut good = true;
            let ps: Vec<RVal> = (0..n)
                .map(|_| {
                    let k = s.below(6);
                    let p: String = (0..k).map(|_| *s.pick(&['a', 'b', '_', '.', '1', 'Z', ',', 'é', ' ', '_', 'c', '.'])).collect();
                    let ident = |t: &str| {
                        let b = t.as_bytes();
                        !b.is_empty()
                            && b.iter().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || *c == b'_')
                            && !b[b.len() - 1].eq(&b'_')
                            && b.windows(2).all(|w| w[0] != b'_' || w[1].is_ascii_lowercase())
                    };
                    good &= p.split('.').all(ident);
                    RVal::Str(p)
                })
                .collect();
            x.f.insert(1, RVal::List(ps));
            (x, if good { Some(true) } else { None })
        }
        3 => {
            let mut x = wkt_msg(m, "google.protobuf.Value");
            let v = s.f64v();
            x.f.insert(2, RVal::F64(v));
            if s.flip() {
                let mut l = wkt_msg(m, "google.protobuf.ListValue");
                l.f.insert(1, RVal::List(vec![RVal::Msg(x)]));
                x = l;
            }
            (x, Some(v.is_finite()))
        }
        _ => {
            // wrappers of any content are representable
            let ws: Vec<&&str> = WKT_NAMES.iter().filter(|n| n.ends_with("Value") && n.len() > 26).collect();
            let name = **s.pick(&ws);
            if name == "google.protobuf.ListValue" {
                return (wkt_msg(m, name), Some(true));
            }
            let mut x = wkt_msg(m, name);
            let ty = m.msgs[x.mid].fields[0].ty;
            let mut v = gen_scalar(s, m, ty, &VCfg::default());
            super::wirep::unsign_val(&mut v);
            if v != m.zero(ty) {
                x.f.insert(1, v);
            }
            (x, Some(true))
        }
    }
}
fn malformed(s: &mut Src, m: &Model, name: &str) -> Option<J> {
    if let Some(x) = wkt_fault(s, name) {
        return Some(x);
    }
    match name {
        "google.protobuf.Value" => None,
        "google.protobuf.Any" => Some(match s.below(7) {
            0 => arr0(s),
            1 => raw("1"),
            2 => j(K::Obj(vec![("value".into(), raw("1"))])),
            3 => j(K::Obj(vec![("@type".into(), st("type.googleapis.com/no.Such")), ("value".into(), raw("1"))])),
            4 => j(K::Obj(vec![("@type".into(), st("type.googleapis.com/google.protobuf.Duration")), ("value".into(), st("1"))])),
            5 => j(K::Obj(vec![("value".into(), st("1")), ("@type".into(), st("type.googleapis.com/google.protobuf.Duration"))])),
            _ => j(K::Obj(vec![("f0x0".into(), raw("1")), ("@type".into(), st("type.googleapis.com/h.H"))])),
        }),
        _ => {
            let f = &m.msgs[m.find_msg(name).unwrap()].fields[0];
            let site = match f.ty {
                Ty::Double => Site::F64,
                Ty::Float => Site::F32,
                Ty::Bool => Site::Bool,
                Ty::String => Site::Str,
                Ty::Bytes => Site::Bytes,
                t => {
                    let (a, b) = int_range(t);
                    Site::Int(a, b)
                }
            };
            let cur = j(K::Null);
            fault(s, m, site, &cur)
        }
    }
}
