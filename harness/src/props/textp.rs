//! C13-C16: the text format.

use super::jsonp::{canon_any, cut, well_typed};
use super::wirep::{classify, describe, env};
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::src::Src;
use crate::text::*;
use crate::value::*;
use crate::wire;
use prost::Message;
use prost_reflect::text_format::ParseError;
use prost_reflect::{DynamicMessage, MessageDescriptor};

fn cfg() -> Cfg {
    Cfg { wkt: true, max_msgs: 3, max_fields: 6, ..Default::default() }
}
fn gen(c: &mut Ctx, unk: bool) -> (Model, usize, RMsg) {
    let m = gen_model(&mut c.s, &cfg());
    let us = user_msgs(&m);
    let any = m.find_msg("google.protobuf.Any");
    let mid = match any {
        Some(a) if c.s.chance(1, 10) => a,
        _ => *c.s.pick(&us),
    };
    let mut vc = VCfg { json_safe: c.s.chance(3, 4), budget: 30, unk, ..Default::default() };
    let mut v = gen_msg(&mut c.s, &m, mid, 4, &mut vc);
    stretch(&mut c.s, &m, &mut v, &vc);
    c.note(|| format!("schema: {}\nmessage type: {}\nvalue: {v:?}", describe(&m), m.msgs[mid].full_name));
    c.digest(format!("{}{v:?}", m.msgs[mid].full_name).as_bytes());
    classify(c, &m, &v);
    c.nontrivial = weight(&v) >= 2;
    (m, mid, v)
}
/// Content as the text format carries it: no unknown fields, Any contents decoded.
pub fn content(m: &Model, r: &RMsg) -> RMsg {
    let mut r = r.clone();
    wire::normalize(m, &mut r);
    let mut o = canon_any(m, &r);
    strip_unknown(&mut o);
    o
}
fn same(m: &Model, a: &RMsg, b: &RMsg) -> bool {
    content(m, a) == content(m, b)
}
fn parse(desc: &MessageDescriptor, t: &str) -> Result<DynamicMessage, ParseError> {
    DynamicMessage::parse_text_format(desc.clone(), t)
}

pub const C13: Prop = Prop {
    id: "C13",
    run: c13,
    quick: 350_000,
    thorough: 9_000_000,
    rule: "case = generated schema (groups, extensions, maps, well-known types) + message + format options; oracle = parse(print(x)) == x (unknown fields dropped, Any contents compared decoded); Display output and merging into an empty message included; non-trivial = at least 2 populated values; distinct = hash of type and value",
};
fn c13(c: &mut Ctx) -> R {
    let unk = c.s.chance(1, 6);
    let (m, mid, v) = gen(c, unk);
    let e = env(&m)?;
    let mut d = e.to_dyn(&v);
    let mut o = TOpts::random(&mut c.s);
    o.skip_unknown = true;
    touch(&mut d, &mut c.s, o.skip_default);
    let how = c.s.weighted(&[6, 1, 1, 1]);
    c.note(|| format!("options {o:?}, how {how}"));
    let t = no_panic("print", || match how {
        1 => format!("{d}"),
        2 => format!("{d:#}"),
        3 => d.to_text_format(),
        _ => d.to_text_format_with_options(&o.lib()),
    })?;
    let r = no_panic("parse", || {
        if c.s.chance(1, 4) {
            let mut x = DynamicMessage::new(e.msgs[mid].clone());
            x.merge_text_format(&t).map(|_| x)
        } else {
            parse(&e.msgs[mid], &t)
        }
    })?;
    let back = match r {
        Ok(b) => e.from_dyn(&b),
        Err(x) => return fail("round-trip-error", format!("{x}\ntext: {}", cut(&t))),
    };
    ensure!(same(&m, &back, &v), "round-trip", "{}\nthrough {}", diff(&m, &content(&m, &v), &content(&m, &back)), cut(&t));
    Ok(())
}

// ---- C14 ---------------------------------------------------------------------------------------

pub const C14: Prop = Prop {
    id: "C14",
    run: c14,
    quick: 400_000,
    thorough: 10_000_000,
    rule: "case = generated schema + message + one random spelling of it (number bases, float forms, escapes, split strings, separators, brackets, list splits, comments, field order, expanded Any) + up to 2 single-fault variants of the spelling; oracle = the spelling parses to the message, each fault is rejected with an error label inside the text, on character boundaries and touching the fault where it has a place; non-trivial = at least 2 populated values or a fault; distinct = hash of the texts",
};
/// (offset, end) of every label of an error; Err when one lies outside the text.
pub fn labels(x: &ParseError, t: &str) -> Result<Vec<(usize, usize)>, String> {
    use miette::Diagnostic;
    let mut out = vec![];
    for l in x.labels().into_iter().flatten() {
        let (a, b) = (l.offset(), l.offset() + l.len());
        if b > t.len() || !t.is_char_boundary(a) || !t.is_char_boundary(b) {
            return Err(format!("label {a}..{b} of {} bytes: {x}", t.len()));
        }
        let src = x.source_code().ok_or("no source code")?;
        if src.read_span(l.inner(), 0, 0).is_err() {
            return Err(format!("label {a}..{b} is not readable in the source: {x}"));
        }
        out.push((a, b));
    }
    let _ = (x.to_string(), format!("{x:?}"), x.help().map(|h| h.to_string()), x.code().map(|h| h.to_string()));
    Ok(out)
}
fn visit(fs: &mut Vec<SF>, mid: usize, f: &mut dyn FnMut(&mut Vec<SF>, usize)) {
    f(fs, mid);
    for x in fs.iter_mut() {
        visit_val(&mut x.val, f);
    }
}
fn visit_val(v: &mut SV, f: &mut dyn FnMut(&mut Vec<SF>, usize)) {
    match v {
        SV::Msg(fs, mid) => visit(fs, *mid, f),
        SV::List(l) => l.iter_mut().for_each(|v| visit_val(v, f)),
        _ => {}
    }
}
fn w(t: &str) -> Vec<String> {
    t.split('\u{1}').map(|x| x.to_string()).collect()
}
/// Tokens that are not a value of this type.
fn bad_value(s: &mut Src, m: &Model, ty: Ty) -> Vec<String> {
    let pool: Vec<String> = match ty {
        Ty::Message(_) | Ty::Group(_) => ["5", "\"x\"", "abc", "true", "-\u{1}1", "1.5", "[", "{\u{1}>", "<\u{1}}", "{\u{1}{\u{1}}"].map(String::from).to_vec(),
        Ty::Bool => ["2", "yes", "TRUE", "tRue", "\"true\"", "-\u{1}1", "1.0", "{\u{1}}", "0x2", "256", "nope"].map(String::from).to_vec(),
        Ty::String | Ty::Bytes => {
            let mut p: Vec<String> = [
                "abc", "5", "{\u{1}}", "1.5", "true", "\"a\nb\"", "'a\nb'", "\"\\q\"", "\"\\x\"", "\"\\xg\"", "\"\\400\"", "\"\\777\"", "\"\\8\"",
                "\"\\u12\"", "\"\\ud800\"", "\"\\U00110000\"", "'\\UFFFFFFFF'", "\"a\0b\"", "\"\\é\"",
            ]
            .map(String::from)
            .to_vec();
            if ty == Ty::String {
                p.extend(["\"\\xff\"", "'\\300'", "\"a\\xc3\"\u{1}\"b\"", "\"\\355\\240\\200\"", "\"\\xF8\\x88\\x80\\x80\\x80\""].map(String::from));
            }
            p
        }
        Ty::Enum(e) => {
            let mut p: Vec<String> = ["ZZZ_NOPE_Z", "\"A\"", "1.5", "2147483648", "-\u{1}2147483649", "{\u{1}}", "99999999999999999999"].map(String::from).to_vec();
            for (n, _) in &m.enums[e].values {
                for alt in [n.to_lowercase(), n.to_uppercase(), format!("{n}_")] {
                    if !m.enums[e].values.iter().any(|x| x.0 == alt) {
                        p.push(alt);
                    }
                }
            }
            p
        }
        Ty::Float | Ty::Double => [
            "\"1.5\"", "abc", "true", "{\u{1}}", "0x1p3", "0x10", "010", "1.5.5", "-\u{1}-\u{1}1", "infin", "nanx", "+1", "1e", "e5", "-\u{1}\"1\"",
        ]
        .map(String::from)
        .to_vec(),
        _ => {
            let (lo, hi) = crate::json::int_range(ty);
            let neg = |x: i128| if x < 0 { format!("-\u{1}{}", -x) } else { x.to_string() };
            let mut p: Vec<String> = [
                "1.5", "1e3", "1.0", "1f", "inf", "nan", "\"5\"", "true", "abc", "{\u{1}}", "08", "0x", "1a", "0xfg", "07_", "-\u{1}-\u{1}1", "+1",
                "99999999999999999999", "-\u{1}99999999999999999999", "0xffffffffffffffffff", "07777777777777777777777777",
            ]
            .map(String::from)
            .to_vec();
            for k in 1..4 {
                p.push(neg(hi + k));
                p.push(neg(lo - k));
                p.push(format!("0x{:x}", hi + k));
                p.push(format!("0{:o}", hi + k));
                p.push(format!("-\u{1}0x{:x}", 1 - lo + k - 1));
            }
            if lo < 0 {
                p.push(neg(lo - 1 - s.below(1 << 20) as i128));
            }
            p.push(neg(hi + 1 + s.below(1 << 20) as i128));
            p
        }
    };
    w(&s.pick(&pool).clone())
}
fn valid_value(s: &mut Src, m: &Model, f: &FieldDef) -> SV {
    let mut vc = VCfg { budget: 4, ..Default::default() };
    match f.ty {
        Ty::Message(x) | Ty::Group(x) => {
            let v = gen_msg(s, m, x, 1, &mut vc);
            sp_msg(m, &v, s)
        }
        ty => {
            let v = gen_scalar(s, m, ty, &vc);
            SV::Sc(ty, sp_scalar(m, ty, &v, s))
        }
    }
}
pub fn fref<'a>(m: &'a Model, mid: usize, num: u32) -> Option<FRef<'a>> {
    m.field(mid, num)
}
/// Puts one fault into the fields of a message.  Returns its label.
fn tree_fault(s: &mut Src, m: &Model, fs: &mut Vec<SF>, mid: usize) -> Option<&'static str> {
    let some = !fs.is_empty();
    let k = s.weighted(&[if some { 8 } else { 0 }, 2, 1, 1, 1, 1]);
    let junk = |s: &mut Src| -> SV {
        match s.below(4) {
            0 => SV::Raw(vec!["1".into()]),
            1 => SV::Raw(vec!["\"x\"".into()]),
            2 => SV::Msg(vec![], 0),
            _ => SV::Raw(vec!["abc".into()]),
        }
    };
    let add = |s: &mut Src, fs: &mut Vec<SF>, f: SF| {
        let i = s.us(fs.len() + 1);
        fs.insert(i, f);
    };
    match k {
        0 => {
            let i = s.us(fs.len());
            let num = fs[i].num;
            let fr = if num == 0 { None } else { fref(m, mid, num) };
            let Some(fr) = fr else {
                // an expanded Any: written twice, or next to its plain fields
                let mut copy = fs[i].clone();
                copy.mark = Mark::Name;
                fs[i].mark = Mark::Name;
                if s.flip() {
                    copy = SF { name: vec!["type_url".into()], val: SV::Raw(vec!["\"a.b/c\"".into()]), num: 1, mark: Mark::Value };
                }
                if s.chance(1, 3) {
                    // (after an Any expanded to nothing, value is not set yet)
                    copy = SF { name: vec!["value".into()], val: SV::Raw(vec!["\"z\"".into()]), num: 2, mark: Mark::Name };
                    fs.insert(i, copy);
                    return Some("any-value-twice");
                }
                add(s, fs, copy);
                return Some("any-twice");
            };
            let f = fr.def();
            let rep = f.card == Card::Repeated;
            match s.weighted(&[
                8,
                if !rep { 2 } else { 0 },
                if m.has_presence(mid, fr) { 3 } else { 0 },
                if f.oneof.is_some() { 6 } else { 0 },
                if matches!(fs[i].val, SV::Sc(..)) || f.ty.msg().is_none() && matches!(fs[i].val, SV::List(..)) { 1 } else { 0 },
                1,
                if rep && matches!(&fs[i].val, SV::List(l) if !l.is_empty()) { 2 } else { 0 },
            ]) {
                0 => {
                    let bad = SV::Raw(bad_value(s, m, f.ty));
                    if let (SV::List(l), true) = (&mut fs[i].val, rep) {
                        let j = s.us(l.len() + 1);
                        if j < l.len() {
                            l[j] = bad;
                        } else {
                            l.push(bad);
                        }
                    } else {
                        fs[i].val = bad;
                    }
                    fs[i].mark = Mark::Value;
                    Some("value")
                }
                1 => {
                    let v = fs[i].val.clone();
                    fs[i].val = SV::List(if s.chance(1, 4) { vec![] } else { vec![v] });
                    fs[i].mark = Mark::Value;
                    Some("list-for-singular")
                }
                2 => {
                    fs[i].mark = Mark::Value;
                    let x = SF { name: fs[i].name.clone(), val: valid_value(s, m, f), num, mark: Mark::Value };
                    add(s, fs, x);
                    Some("twice")
                }
                3 => {
                    let others: Vec<&FieldDef> = m.msgs[mid].fields.iter().filter(|g| g.oneof == f.oneof && g.number != f.number).collect();
                    if others.is_empty() {
                        return None;
                    }
                    let g = *s.pick(&others);
                    fs[i].mark = Mark::Value;
                    let x = SF { name: sp_name(&field_name(m, FRef::F(g))), val: valid_value(s, m, g), num: g.number, mark: Mark::Value };
                    add(s, fs, x);
                    Some("oneof")
                }
                4 => {
                    fs[i].mark = Mark::NoColon;
                    Some("no-colon")
                }
                5 => {
                    fs[i].mark = Mark::NoValue;
                    Some("no-value")
                }
                _ => {
                    // broken list
                    let SV::List(l) = &fs[i].val else { unreachable!() };
                    let mut ts = vec![];
                    super::textp::list_tokens(l, s, &mut ts);
                    let strs = matches!(f.ty, Ty::String | Ty::Bytes);
                    match s.below(3) {
                        0 => ts.insert(ts.len() - 1, ",".into()),
                        1 => ts.insert(1, ",".into()),
                        _ => {
                            if strs || l.len() < 2 {
                                ts.insert(ts.len() - 1, ";".into());
                            } else {
                                let mut t2 = vec!["[".to_string()];
                                let mut a = vec![];
                                list_tokens(&l[..1], s, &mut a);
                                t2.extend(a[1..a.len() - 1].to_vec());
                                let mut b = vec![];
                                list_tokens(&l[1..], s, &mut b);
                                t2.extend(b[1..].to_vec());
                                ts = t2;
                            }
                        }
                    }
                    fs[i].val = SV::Raw(ts);
                    fs[i].mark = Mark::Value;
                    Some("list-punctuation")
                }
            }
        }
        1 => {
            // unknown field
            let mut names: Vec<String> = vec!["zz_unknown_q".into(), "_".into(), "Zz9".into(), "true".into(), "inf".into()];
            for f in &m.msgs[mid].fields {
                names.push(m.json_name(f));
                names.push(f.name.to_uppercase());
                names.push(format!("{}_", f.name));
                if matches!(f.ty, Ty::Group(_)) {
                    // a group goes by its type name
                    names.push(f.name.clone());
                }
            }
            names.retain(|n| {
                ident(n)
                    && !m.msgs[mid].fields.iter().any(|f| match f.ty {
                        // case variants of group names are left open
                        Ty::Group(g) => f.name == n.to_lowercase() && m.msgs[g].name != *n || m.msgs[g].name == *n,
                        _ => f.name == *n,
                    })
            });
            let n = s.pick(&names).clone();
            let v = junk(s);
            add(s, fs, SF { name: vec![n], val: v, num: 0, mark: Mark::Name });
            Some("unknown-field")
        }
        2 => {
            let mut names: Vec<String> = vec!["a.b.nope_q".into(), "nope_q".into(), m.msgs[mid].full_name.clone()];
            for x in &m.exts {
                if x.extendee != mid {
                    names.push(x.full_name.clone());
                } else {
                    // less, or other, than its full name
                    for (i, _) in x.full_name.match_indices('.') {
                        names.push(x.full_name[i + 1..].to_string());
                    }
                    names.push(x.full_name.to_uppercase());
                    names.push(format!("{}.x", x.full_name));
                }
            }
            names.retain(|n| n.split('.').all(ident) && !m.exts.iter().any(|x| x.extendee == mid && x.full_name == *n));
            let n = s.pick(&names).clone();
            let v = junk(s);
            add(s, fs, SF { name: sp_name(&Name::Ext(n)), val: v, num: 0, mark: Mark::Name });
            Some("unknown-extension")
        }
        3 => {
            // Any syntax for an unknown type, or outside Any
            let is_any = m.msgs[mid].full_name == "google.protobuf.Any";
            let url = if is_any { "type.googleapis.com/no.such.Type".to_string() } else { format!("type.googleapis.com/{}", m.msgs[mid].full_name) };
            if !url.split('/').all(|p| p.split('.').all(ident)) {
                return None;
            }
            add(s, fs, SF { name: sp_name(&Name::Any(url)), val: SV::Msg(vec![], 0), num: 0, mark: Mark::Name });
            Some("any-syntax")
        }
        4 => {
            let n = match m.msgs[mid].fields.first() {
                Some(f) if s.flip() => f.number.to_string(),
                _ => s.pick(&["1", "99", "-1", "\"a\"", "1.5", ":", "/", "."]).to_string(),
            };
            add(s, fs, SF { name: vec![n], val: SV::Raw(vec!["1".into()]), num: 0, mark: Mark::Name });
            Some("bad-name")
        }
        _ => {
            let n: &[&str] = s.pick::<&[&str]>(&[
                &["["],
                &["[", "]"],
                &["[", "a", "."],
                &["[", "a", ".", "]"],
                &["[", ".", "a", "]"],
                &["[", "a", "b", "]"],
                &["[", "a", "/", "]"],
                &["[", "a", "/", "b", "/", "c", "]"],
                &["[", "5", "]"],
                &["[", "\"a\"", "]"],
                &["[", "a", ",", "b", "]"],
                &["[", "a", ".", ".", "b", "]"],
            ]);
            add(s, fs, SF { name: n.iter().map(|x| x.to_string()).collect(), val: SV::Raw(vec!["1".into()]), num: 0, mark: Mark::Name });
            Some("bad-bracket-name")
        }
    }
}
fn list_tokens(l: &[SV], s: &mut Src, out: &mut Vec<String>) {
    let mut ts: Vec<T> = vec![];
    flat(&[SF { name: vec![], val: SV::List(l.to_vec()), num: 0, mark: Mark::No }], s, &mut ts);
    let mut v: Vec<String> = ts.into_iter().map(|x| x.0).collect();
    while v.first().map_or(false, |x| x != "[") {
        v.remove(0);
    }
    while v.last().map_or(false, |x| x != "]") {
        v.pop();
    }
    *out = v;
}
fn token_fault(s: &mut Src, ts: &mut Vec<T>) -> Option<&'static str> {
    let br: Vec<usize> = (0..ts.len()).filter(|&i| "{}[]<>".contains(ts[i].0.as_str()) && !ts[i].0.is_empty()).collect();
    match s.weighted(&[if br.is_empty() { 0 } else { 4 }, 2, 2, 2, 1]) {
        0 => {
            let i = *s.pick(&br);
            match s.below(3) {
                0 => {
                    ts.remove(i);
                }
                1 => {
                    let t = ts[i].clone();
                    ts.insert(i, t);
                }
                _ => {
                    let alt = match ts[i].0.as_str() {
                        "{" => "<",
                        "<" => "{",
                        "}" => ">",
                        ">" => "}",
                        "[" => "{",
                        _ => "}",
                    };
                    ts[i] = (alt.into(), true);
                }
            }
            Some("bracket")
        }
        1 => {
            let g: &[&str] = s.pick::<&[&str]>(&[&["}"], &[">"], &["]"], &["abc"], &["5"], &["{"], &["-"], &["/"], &["a", ".", "b"], &["1.5"], &["{", "}"]]);
            ts.extend(g.iter().map(|t| (t.to_string(), true)));
            Some("trailing")
        }
        2 => {
            let i = s.us(ts.len() + 1);
            let t = *s.pick(&["@", "$", "é", "~", "=", "\\", "(", "😀", "\u{0}", "\u{a0}", "%", "!", "`", "\"", "'", "\"abc", "'abc\n", "&", "*", "+", "|", "\u{feff}"]);
            let odd = t.starts_with('"') || t.starts_with('\'');
            if odd {
                // an unterminated string only at the end of the text
                ts.push((t.to_string(), true));
            } else {
                ts.insert(i, (t.to_string(), true));
            }
            Some("stray")
        }
        3 => {
            // separators where none may stand
            let i = match s.below(2) {
                0 => 0,
                _ => match (0..ts.len()).find(|&i| (ts[i].0 == "," || ts[i].0 == ";") && s.flip()) {
                    Some(i) => i,
                    None => 0,
                },
            };
            ts.insert(i, (s.pick(&[",", ";"]).to_string(), true));
            Some("separator")
        }
        _ => {
            // a colon doubled
            let cs: Vec<usize> = (0..ts.len()).filter(|&i| ts[i].0 == ":").collect();
            if cs.is_empty() {
                return None;
            }
            let i = *s.pick(&cs);
            ts.insert(i, (":".into(), true));
            Some("colon")
        }
    }
}
fn c14(c: &mut Ctx) -> R {
    let (m, mid, v) = gen(c, false);
    let e = env(&m)?;
    let desc = &e.msgs[mid];
    let tree = sp_fields(&m, &v, &mut c.s);
    let mut ts = vec![];
    flat(&tree, &mut c.s, &mut ts);
    let (t, _) = join(&ts, &mut c.s);
    c.digest(t.as_bytes());
    c.note(|| format!("spelling: {t}"));
    match no_panic("parse", || parse(desc, &t))? {
        Ok(d) => {
            let got = e.from_dyn(&d);
            ensure!(same(&m, &got, &v), "spelling-value", "{}\nfrom {}", diff(&m, &content(&m, &v), &content(&m, &got)), cut(&t));
        }
        Err(x) => return fail("spelling-rejected", format!("{x}\ntext: {}", cut(&t))),
    }
    for _ in 0..c.s.below(3) {
        let mut tree = tree.clone();
        let mut label = None;
        let mut ts: Vec<T>;
        if c.s.chance(2, 3) {
            let mut n = 0;
            visit(&mut tree, mid, &mut |_, _| n += 1);
            let pick = c.s.us(n);
            let mut k = 0;
            let s = &mut c.s;
            visit(&mut tree, mid, &mut |fs, x| {
                if k == pick && label.is_none() {
                    label = tree_fault(s, &m, fs, x);
                }
                k += 1;
            });
            ts = vec![];
            flat(&tree, &mut c.s, &mut ts);
        } else {
            ts = vec![];
            flat(&tree, &mut c.s, &mut ts);
            label = token_fault(&mut c.s, &mut ts);
        }
        let Some(label) = label else { continue };
        let (t, range) = join(&ts, &mut c.s);
        c.label(label);
        c.nontrivial = true;
        c.digest(t.as_bytes());
        c.note(|| format!("fault {label}: {t}"));
        match no_panic("parse", || parse(desc, &t))? {
            Ok(d) => return fail(&format!("accepted-{label}"), format!("accepted as {:?}\ntext: {}", e.from_dyn(&d), cut(&t))),
            Err(x) => {
                let ls = match labels(&x, &t) {
                    Ok(l) => l,
                    Err(y) => return fail("span", format!("{y}\ntext: {}", cut(&t))),
                };
                let at_end = x.to_string().contains("end of input");
                ensure!(!ls.is_empty() || at_end, "no-span", "{x} has no location\ntext: {}", cut(&t));
                // faults that have a place of their own
                let placed = matches!(label, "value" | "list-for-singular" | "twice" | "oneof" | "any-twice" | "unknown-field" | "unknown-extension");
                if let (true, Some((a, b)), false) = (placed, range, ls.is_empty()) {
                    // (a sign or an opening bracket alone is noticed at the token after it)
                    ensure!(
                        t[a..b].ends_with(|ch: char| "-[{<".contains(ch)) || ls.iter().any(|&(p, q)| p < b && q > a),
                        "wrong-span",
                        "{x} at {ls:?}, fault at {a}..{b}\ntext: {}",
                        cut(&t)
                    );
                }
            }
        }
    }
    Ok(())
}

// ---- C15 ---------------------------------------------------------------------------------------

pub const C15: Prop = Prop {
    id: "C15",
    run: c15,
    quick: 400_000,
    thorough: 12_000_000,
    rule: "case = generated schema + text: token soup over the schema's names, a valid spelling with random character edits, random characters, or deep nesting; oracle = no panic/crash, error labels on character boundaries inside the text, accepted values have their field's type and print and parse back equal; non-trivial = accepted, or at least 3 tokens; distinct = hash of the text",
};
fn soup(s: &mut Src, m: &Model, mid: usize) -> String {
    let mut names: Vec<String> = vec![];
    for f in &m.msgs[mid].fields {
        names.push(sp_name(&field_name(m, FRef::F(f))).join(""));
        if let Some(x) = f.ty.msg() {
            names.extend(m.msgs[x].fields.iter().map(|f| f.name.clone()));
        }
        if let Ty::Enum(e) = f.ty {
            names.extend(m.enums[e].values.iter().map(|v| v.0.clone()));
        }
    }
    for x in &m.exts {
        names.push(format!("[{}]", x.full_name));
    }
    names.push("[type.googleapis.com/google.protobuf.Duration]".into());
    names.push("[a.b/google.protobuf.Any]".into());
    names.push("key".into());
    names.push("value".into());
    let n = s.size(12, 60);
    let mut o = String::new();
    for _ in 0..n {
        match s.weighted(&[6, 6, 4, 2]) {
            0 => {
                o += &s.pick(&names).clone();
                if s.flip() {
                    o.push(':');
                }
            }
            1 => o += *s.pick(&["{", "}", "<", ">", "[", "]", ":", ",", ";", "-", "{}", ".", "/"]),
            2 => {
                let ty = *s.pick(&[Ty::Int32, Ty::Double, Ty::String, Ty::Bytes, Ty::Bool, Ty::Uint64, Ty::Sint64, Ty::Float]);
                let v = gen_scalar(s, m, ty, &VCfg::default());
                o += &sp_scalar(m, ty, &v, s).join(if s.flip() { "" } else { " " });
            }
            _ => {
                let ty = *s.pick(&[Ty::Int32, Ty::Double, Ty::String, Ty::Bool, Ty::Uint64]);
                o += &bad_value(s, m, ty).join("");
            }
        }
        if !s.chance(1, 4) {
            o.push(' ');
        }
    }
    o
}
fn deep(s: &mut Src, m: &Model, mid: usize) -> String {
    let n = *s.pick(&[50usize, 99, 100, 101, 102, 500, 20_000, 200_000]);
    let name = |f: &FieldDef, m: &Model| sp_name(&field_name(m, FRef::F(f))).join("");
    let rec = m.msgs[mid].fields.iter().find(|f| f.ty.msg() == Some(mid));
    let to_any = m.msgs[mid].fields.iter().find(|f| matches!(f.ty.msg(), Some(x) if m.msgs[x].full_name == "google.protobuf.Any" || m.msgs[x].full_name.ends_with("Value")));
    let (pre, open, close) = match (rec, to_any, s.below(5)) {
        (Some(f), _, 0 | 1) => (String::new(), if s.flip() { format!("{}{{", name(f, m)) } else { format!("{}:<", name(f, m)) }, "}"),
        (_, Some(f), 0..=2) => {
            let x = &m.msgs[f.ty.msg().unwrap()].full_name;
            let st = if s.flip() || x != "google.protobuf.Any" { "[a.b/google.protobuf.Any]{" } else { "list_value{values{" };
            (format!("{}{{", name(f, m)), st.to_string(), "}")
        }
        (_, _, 3) => (String::new(), "[".into(), "]"),
        (_, _, 4) => (String::new(), "#".into(), "\n"),
        _ => (String::new(), "a{".into(), "}"),
    };
    let close = if open.ends_with('<') { ">" } else { close };
    let mut o = pre.clone();
    o += &open.repeat(n);
    if !s.chance(1, 4) {
        o += &close.repeat(n);
        if !pre.is_empty() {
            o.push('}');
        }
    }
    o.truncate(if o.is_char_boundary(3_000_000.min(o.len())) { 3_000_000.min(o.len()) } else { o.len() });
    o
}
fn c15(c: &mut Ctx) -> R {
    let m = gen_model(&mut c.s, &cfg());
    let us = user_msgs(&m);
    let mids: Vec<usize> = (0..m.msgs.len()).filter(|&i| !m.msgs[i].map_entry).collect();
    let mid = if c.s.chance(1, 5) { *c.s.pick(&mids) } else { *c.s.pick(&us) };
    let e = env(&m)?;
    let desc = &e.msgs[mid];
    let kind = c.s.weighted(&[300, 500, 80, 3]);
    let t = match kind {
        0 => soup(&mut c.s, &m, mid),
        1 => {
            let mut vc = VCfg { json_safe: c.s.flip(), budget: 20, ..Default::default() };
            let v = gen_msg(&mut c.s, &m, mid, 3, &mut vc);
            let mut ts = vec![];
            let mut tree = sp_fields(&m, &v, &mut c.s);
            if c.s.chance(1, 4) {
                let s = &mut c.s;
                let mut done = false;
                visit(&mut tree, mid, &mut |fs, x| {
                    if !done && s.flip() {
                        done = tree_fault(s, &m, fs, x).is_some();
                    }
                });
            }
            flat(&tree, &mut c.s, &mut ts);
            let t = join(&ts, &mut c.s).0;
            let mut cs: Vec<char> = t.chars().collect();
            for _ in 0..c.s.below(4) {
                if cs.is_empty() {
                    break;
                }
                let i = c.s.us(cs.len());
                match c.s.below(5) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs[i] = c.s.ch(),
                    2 => cs.insert(i, *c.s.pick(&['{', '}', '[', ']', '<', '>', '"', '\'', ',', ':', ';', '0', '-', '.', 'e', '\\', 'u', 'x', 'f', '#', '/', '\n', 'é'])),
                    3 => cs.truncate(i),
                    _ => {
                        let j2 = i + c.s.us(8);
                        let part: Vec<char> = cs[i..j2.min(cs.len())].to_vec();
                        cs.splice(i..i, part);
                    }
                }
            }
            cs.into_iter().collect()
        }
        2 => c.s.string(),
        _ => deep(&mut c.s, &m, mid),
    };
    c.label(["soup", "edited", "random", "deep"][kind]);
    c.note(|| format!("schema: {}\nmessage type: {}\ntext: {}", describe(&m), m.msgs[mid].full_name, cut(&t)));
    c.digest(t.as_bytes());
    c.nontrivial = t.split_whitespace().count() >= 3;
    let into = c.s.chance(1, 6);
    let r = no_panic("parse", || {
        if into {
            // what an earlier text left in the message does not matter for safety
            let mut d = DynamicMessage::new(desc.clone());
            let half: String = t.chars().take(t.chars().count() / 2).collect();
            let _ = d.merge_text_format(&half);
            let mut d2 = d.clone();
            let _ = d2.merge_text_format(&t);
            let _ = d2.encode_to_vec();
        }
        parse(desc, &t)
    })?;
    let d = match r {
        Err(x) => {
            if let Err(y) = no_panic("labels", || labels(&x, &t))? {
                return fail("span", format!("{y}\ntext: {}", cut(&t)));
            }
            c.label("rejected");
            return Ok(());
        }
        Ok(d) => d,
    };
    c.label("accepted");
    c.nontrivial = true;
    let got = no_panic("read", || e.from_dyn(&d))?;
    if let Err(x) = well_typed(&m, &got) {
        return fail("ill-typed", format!("{x}\nfrom {}", cut(&t)));
    }
    let o = TOpts { pretty: c.s.flip(), ..TOpts::random(&mut c.s) };
    let o = TOpts { skip_unknown: true, ..o };
    let out = no_panic("print", || d.to_text_format_with_options(&o.lib()))?;
    match no_panic("parse", || parse(desc, &out))? {
        Ok(b) => {
            let b = e.from_dyn(&b);
            ensure!(same(&m, &b, &got), "reparse", "{}\nfrom {}\nprinted {}", diff(&m, &content(&m, &got), &content(&m, &b)), cut(&t), cut(&out));
        }
        // (expanding Any can go past the nesting limit)
        Err(x) if kind == 3 && x.to_string().contains("deep") => {}
        Err(x) => return fail("reparse", format!("printed form rejected: {x}: {}\nfrom {}", cut(&out), cut(&t))),
    }
    Ok(())
}

// ---- C16 ---------------------------------------------------------------------------------------

pub const C16: Prop = Prop {
    id: "C16",
    run: c16,
    quick: 350_000,
    thorough: 9_000_000,
    rule: "case = generated schema + message with unknown fields + format options; oracle = an independent reader of the printed text finds exactly the message's fields, values, unknown data and order that the options select, compact and pretty output differ only in layout; non-trivial = at least 2 populated values; distinct = hash of type and value",
};
fn layout(t: &str, o: &TOpts) -> Result<(), String> {
    // outside string literals
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut outside = String::new();
    while i < cs.len() {
        if cs[i] == '"' || cs[i] == '\'' {
            let q = cs[i];
            i += 1;
            while i < cs.len() && cs[i] != q {
                i += if cs[i] == '\\' { 2 } else { 1 };
            }
            outside.push('"');
        } else {
            outside.push(cs[i]);
        }
        i += 1;
    }
    if !o.pretty {
        if outside.contains('\n') {
            return Err("compact output has line breaks".into());
        }
        return Ok(());
    }
    // one field per line, nested fields indented more than their parent
    let mut depth = 0i32;
    for line in outside.split('\n') {
        let ind = line.len() - line.trim_start().len();
        let lead = line.trim_start().chars().take_while(|c| *c == '}').count() as i32;
        if line.trim().is_empty() && outside.trim().is_empty() {
            continue;
        }
        if (depth - lead == 0) != (ind == 0) {
            return Err(format!("indentation of {line:?} at depth {depth}"));
        }
        depth += line.matches('{').count() as i32 - line.matches('}').count() as i32;
        // a name followed by a value starts a line
        let fields = line.matches(": ").count();
        if fields > 1 {
            return Err(format!("several fields on the line {line:?}"));
        }
    }
    Ok(())
}
fn c16(c: &mut Ctx) -> R {
    let (m, mid, v) = gen(c, true);
    let e = env(&m)?;
    let mut d = e.to_dyn(&v);
    // the library's own order of unknown fields
    let v = RMsg { unk: v.unk.clone(), ..v };
    let o = TOpts::random(&mut c.s);
    touch(&mut d, &mut c.s, o.skip_default);
    c.note(|| format!("options {o:?}"));
    let t = no_panic("print", || d.to_text_format_with_options(&o.lib()))?;
    let fs = match read(&t) {
        Ok(f) => f,
        Err(x) => return fail("unreadable", format!("{x}\nprinted {}", cut(&t))),
    };
    if let Err(x) = matches(&m, &v, &o, &fs, "") {
        return fail("content", format!("{x}\nprinted {}", cut(&t)));
    }
    if let Err(x) = layout(&t, &o) {
        return fail("layout", format!("{x}\nprinted {}", cut(&t)));
    }
    let other = TOpts { pretty: !o.pretty, ..o };
    let t2 = d.to_text_format_with_options(&other.lib());
    let f2 = read(&t2).map_err(|x| Fail { sig: "unreadable".into(), msg: x })?;
    if let Err(x) = matches(&m, &v, &other, &f2, "") {
        return fail("content", format!("{x}\nprinted {}", cut(&t2)));
    }
    if let Err(x) = layout(&t2, &other) {
        return fail("layout", format!("{x}\nprinted {}", cut(&t2)));
    }
    // the ways to print without naming options
    if c.s.chance(1, 4) {
        let base = TOpts { pretty: false, skip_unknown: true, skip_default: true, index_order: false, expand_any: true, sparse: c.s.flip() };
        let flat = d.to_text_format_with_options(&base.lib());
        let (a, b, x) = no_panic("print", || (d.to_text_format(), format!("{d}"), format!("{d:#}")))?;
        // (the entries of a map in an expanded Any come in any order)
        let bag = |x: &str| {
            let mut v = x.as_bytes().to_vec();
            v.sort_unstable();
            v
        };
        ensure!(bag(&a) == bag(&flat) && bag(&b) == bag(&flat), "default-print", "the default options print {}, to_text_format {}, Display {}", cut(&flat), cut(&a), cut(&b));
        let y = d.to_text_format_with_options(&TOpts { pretty: true, ..base }.lib());
        ensure!(bag(&x) == bag(&y), "default-print", "the alternate form is {}, the pretty one {}", cut(&x), cut(&y));
    }
    // unknown fields print one by one as they do in their message
    if !v.unk.is_empty() {
        let only = RMsg { f: Default::default(), ..v.clone() };
        let d = e.to_dyn(&only);
        let p = c.s.flip();
        let o = prost_reflect::text_format::FormatOptions::new().skip_unknown_fields(false).pretty(p);
        let (whole, parts) = no_panic("print unknown", || {
            let parts: Vec<String> = d.unknown_fields().map(|u| if p { format!("{u:#}") } else { format!("{u}") }).collect();
            (d.to_text_format_with_options(&o), parts)
        })?;
        let joined = parts.join(if p { "\n" } else { "," });
        ensure!(parts.len() == only.unk.len() && joined == whole, "unknown-display", "fields print as {} but the message as {}", cut(&joined), cut(&whole));
    }
    if c.s.chance(1, 4000) {
        c.label("deep-unknown");
        // nested length-delimited data
        let n = *c.s.pick(&[10usize, 1000, 30_000]);
        let mut b: Vec<u8> = vec![];
        let mut parts: Vec<Vec<u8>> = vec![];
        let mut len = 0;
        for _ in 0..n {
            let mut h = vec![];
            wire::put_key(&mut h, 536_870_911, 2);
            wire::put_varint(&mut h, len as u64);
            len += h.len();
            parts.push(h);
        }
        parts.reverse();
        parts.into_iter().for_each(|p| b.extend(p));
        if m.field(mid, 536_870_911).is_none() {
            let d = no_panic("decode", || DynamicMessage::decode(e.msgs[mid].clone(), &b[..]))?;
            if let Ok(d) = d {
                no_panic("print", || d.to_text_format_with_options(&prost_reflect::text_format::FormatOptions::new().skip_unknown_fields(false)).len())?;
            }
        }
    }
    if c.s.chance(1, 4000) {
        if let Some(any) = m.find_msg("google.protobuf.Any") {
            c.label("deep-any");
            let n = *c.s.pick(&[10usize, 300, 3000]);
            let mut cur = vec![];
            for _ in 0..n {
                let mut h = vec![];
                let inner: Vec<u8> = std::mem::take(&mut cur);
                wire::put_key(&mut h, 1, 2);
                wire::put_len(&mut h, b"a.b/google.protobuf.Any");
                wire::put_key(&mut h, 2, 2);
                wire::put_len(&mut h, &inner);
                cur = h;
            }
            if let Ok(d) = DynamicMessage::decode(e.msgs[any].clone(), &cur[..]) {
                let t = no_panic("print", || d.to_text_format())?;
                let b = no_panic("parse", || parse(&e.msgs[any], &t))?;
                match b {
                    Ok(b) => ensure!(same(&m, &e.from_dyn(&b), &e.from_dyn(&d)), "deep-any", "{n} nested Any messages differ"),
                    Err(x) => return fail("deep-any", format!("{n} nested Any messages print as {} which is rejected: {x}", cut(&t))),
                }
            }
        }
    }
    Ok(())
}
