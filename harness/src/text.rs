//! Reference text format: an independent reader of printed text, and varied spellings of values.

use crate::json::{any_inner, is_wkt};
use crate::model::*;
use crate::src::Src;
use crate::value::*;

// ---- reading ---------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    /// number text, without sign
    Num(String),
    Str(Vec<u8>),
    P(char),
}
pub fn tokenize(t: &str) -> Result<Vec<Tok>, String> {
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < cs.len() {
        let c = cs[i];
        if c.is_ascii_whitespace() || c == '\u{b}' {
            i += 1;
        } else if c == '#' {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c.is_ascii_alphabetic() || c == '_' {
            let s = i;
            while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            out.push(Tok::Word(cs[s..i].iter().collect()));
        } else if c.is_ascii_digit() || (c == '.' && i + 1 < cs.len() && cs[i + 1].is_ascii_digit()) {
            let s = i;
            while i < cs.len()
                && (cs[i].is_ascii_alphanumeric() || cs[i] == '.' || ((cs[i] == '+' || cs[i] == '-') && (cs[i - 1] == 'e' || cs[i - 1] == 'E')))
            {
                i += 1;
            }
            out.push(Tok::Num(cs[s..i].iter().collect()));
        } else if c == '"' || c == '\'' {
            i += 1;
            let mut b = vec![];
            loop {
                let Some(&d) = cs.get(i) else { return Err("unterminated string".into()) };
                i += 1;
                if d == c {
                    break;
                }
                if d != '\\' {
                    if d == '\n' || d == '\0' {
                        return Err("raw newline or NUL in a string".into());
                    }
                    b.extend_from_slice(d.to_string().as_bytes());
                    continue;
                }
                let Some(&e) = cs.get(i) else { return Err("unterminated escape".into()) };
                i += 1;
                let take = |i: &mut usize, max: usize, radix: u32| -> Option<u32> {
                    let s = *i;
                    while *i < cs.len() && *i < s + max && cs[*i].is_digit(radix) {
                        *i += 1;
                    }
                    let t: String = cs[s..*i].iter().collect();
                    u32::from_str_radix(&t, radix).ok()
                };
                match e {
                    'a' => b.push(7),
                    'b' => b.push(8),
                    'f' => b.push(12),
                    'n' => b.push(10),
                    'r' => b.push(13),
                    't' => b.push(9),
                    'v' => b.push(11),
                    '?' | '\\' | '\'' | '"' => b.push(e as u8),
                    '0'..='7' => {
                        i -= 1;
                        let v = take(&mut i, 3, 8).unwrap();
                        if v > 255 {
                            return Err("octal escape too large".into());
                        }
                        b.push(v as u8);
                    }
                    'x' | 'X' => b.push(take(&mut i, 2, 16).ok_or("bad hex escape")? as u8),
                    'u' | 'U' => {
                        let n = if e == 'u' { 4 } else { 8 };
                        let s = i;
                        let v = take(&mut i, n, 16).ok_or("bad unicode escape")?;
                        if i - s != n {
                            return Err("short unicode escape".into());
                        }
                        b.extend_from_slice(char::from_u32(v).ok_or("bad code point")?.to_string().as_bytes());
                    }
                    _ => return Err(format!("bad escape {e:?}")),
                }
            }
            out.push(Tok::Str(b));
        } else if "{}[]<>:,;/-.".contains(c) {
            out.push(Tok::P(c));
            i += 1;
        } else {
            return Err(format!("stray character {c:?}"));
        }
    }
    Ok(out)
}
#[derive(Clone, Debug, PartialEq)]
pub enum Name {
    Id(String),
    Ext(String),
    Any(String),
    Num(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Word(String),
    /// with sign
    Num(String),
    Str(Vec<u8>),
    Msg(Vec<(Name, Val)>),
    /// explicit list
    List(Vec<Val>),
}
struct Rdr<'a> {
    t: &'a [Tok],
    i: usize,
}
impl Rdr<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            return true;
        }
        false
    }
    fn name(&mut self) -> Result<Name, String> {
        match self.peek().cloned() {
            Some(Tok::Word(w)) => {
                self.i += 1;
                Ok(Name::Id(w))
            }
            Some(Tok::Num(n)) => {
                self.i += 1;
                n.parse().map(Name::Num).map_err(|_| format!("bad field number {n}"))
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                let mut s = String::new();
                while !self.is(']') {
                    match self.peek() {
                        Some(Tok::Word(w)) => s += w,
                        Some(Tok::P(c @ ('.' | '/'))) => s.push(*c),
                        x => return Err(format!("bad bracketed name: {x:?}")),
                    }
                    self.i += 1;
                }
                self.i += 1;
                Ok(if s.contains('/') { Name::Any(s) } else { Name::Ext(s) })
            }
            x => Err(format!("field name expected, found {x:?}")),
        }
    }
    fn body(&mut self, end: Option<char>) -> Result<Vec<(Name, Val)>, String> {
        let mut out = vec![];
        loop {
            match end {
                Some(c) if self.eat(c) => return Ok(out),
                None if self.peek().is_none() => return Ok(out),
                _ => {}
            }
            let n = self.name()?;
            let colon = self.eat(':');
            if !colon && !self.is('{') && !self.is('<') {
                return Err(format!("missing colon after {n:?}"));
            }
            let v = self.value()?;
            out.push((n, v));
            if !self.eat(',') {
                self.eat(';');
            }
        }
    }
    fn value(&mut self) -> Result<Val, String> {
        let neg = self.eat('-');
        let t = self.peek().cloned();
        self.i += 1;
        let sg = if neg { "-" } else { "" };
        Ok(match t {
            Some(Tok::Word(w)) => {
                if neg {
                    Val::Num(format!("-{w}"))
                } else {
                    Val::Word(w)
                }
            }
            Some(Tok::Num(n)) => Val::Num(format!("{sg}{n}")),
            _ if neg => return Err("sign without number".into()),
            Some(Tok::Str(mut b)) => {
                while let Some(Tok::Str(c)) = self.peek() {
                    b.extend_from_slice(c);
                    self.i += 1;
                }
                Val::Str(b)
            }
            Some(Tok::P('{')) => Val::Msg(self.body(Some('}'))?),
            Some(Tok::P('<')) => Val::Msg(self.body(Some('>'))?),
            Some(Tok::P('[')) => {
                let mut l = vec![];
                if self.eat(']') {
                    return Ok(Val::List(l));
                }
                loop {
                    l.push(self.value()?);
                    if self.eat(']') {
                        return Ok(Val::List(l));
                    }
                    if !self.eat(',') {
                        return Err("list separator expected".into());
                    }
                }
            }
            x => return Err(format!("value expected, found {x:?}")),
        })
    }
}
/// The fields written in a text, in order.
pub fn read(t: &str) -> Result<Vec<(Name, Val)>, String> {
    let toks = tokenize(t)?;
    Rdr { t: &toks, i: 0 }.body(None)
}

fn f_text(v: &Val) -> Option<String> {
    match v {
        Val::Num(n) => Some(n.clone()),
        Val::Word(w) => Some(w.clone()),
        _ => None,
    }
}
/// Does the printed scalar denote exactly this value?
pub fn scalar_is(m: &Model, ty: Ty, v: &RVal, t: &Val) -> bool {
    let int = |x: i128| matches!(t, Val::Num(n) if *n == x.to_string());
    match v {
        RVal::Bool(b) => matches!(t, Val::Word(w) if *w == b.to_string()),
        RVal::I32(x) => int(*x as i128),
        RVal::I64(x) => int(*x as i128),
        RVal::U32(x) => int(*x as i128),
        RVal::U64(x) => int(*x as i128),
        RVal::F32(x) => f_text(t).and_then(|s| s.parse::<f32>().ok()).map_or(false, |y| RVal::F32(y) == RVal::F32(*x)),
        RVal::F64(x) => f_text(t).and_then(|s| s.parse::<f64>().ok()).map_or(false, |y| RVal::F64(y) == RVal::F64(*x)),
        RVal::Str(s) => matches!(t, Val::Str(b) if b == s.as_bytes()),
        RVal::Bytes(s) => matches!(t, Val::Str(b) if b == s),
        RVal::Enum(n) => {
            let Ty::Enum(e) = ty else { return false };
            let names: Vec<&String> = m.enums[e].values.iter().filter(|x| x.1 == *n).map(|x| &x.0).collect();
            if names.is_empty() { int(*n as i128) } else { matches!(t, Val::Word(w) if names.contains(&w)) }
        }
        _ => false,
    }
}

// ---- expected content ------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub struct TOpts {
    pub pretty: bool,
    pub skip_unknown: bool,
    pub skip_default: bool,
    pub index_order: bool,
    pub expand_any: bool,
    /// name only the options that differ from their documented defaults
    pub sparse: bool,
}
impl TOpts {
    pub fn random(s: &mut Src) -> TOpts {
        TOpts { pretty: s.flip(), skip_unknown: !s.flip(), skip_default: !s.flip(), index_order: s.flip(), expand_any: !s.flip(), sparse: s.chance(1, 3) }
    }
    pub fn lib(&self) -> prost_reflect::text_format::FormatOptions {
        let mut o = if self.sparse { Default::default() } else { prost_reflect::text_format::FormatOptions::new() };
        let all = !self.sparse;
        if all || self.pretty {
            o = o.pretty(self.pretty);
        }
        if all || !self.skip_unknown {
            o = o.skip_unknown_fields(self.skip_unknown);
        }
        if all || !self.skip_default {
            o = o.skip_default_fields(self.skip_default);
        }
        if all || self.index_order {
            o = o.print_message_fields_in_index_order(self.index_order);
        }
        if all || !self.expand_any {
            o = o.expand_any(self.expand_any);
        }
        o
    }
}
pub fn ident(s: &str) -> bool {
    !s.is_empty() && !s.as_bytes()[0].is_ascii_digit() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}
/// Type URL of an Any whose expanded form can be written.
pub fn any_name(r: &RMsg) -> Option<String> {
    let Some(RVal::Str(u)) = r.f.get(&1) else { return None };
    let (dom, name) = u.split_once('/')?;
    (dom.split('.').all(ident) && name.split('.').all(ident)).then(|| u.clone())
}
pub fn field_name(m: &Model, fr: FRef) -> Name {
    match fr {
        FRef::X(x) => Name::Ext(x.full_name.clone()),
        FRef::F(f) => Name::Id(match f.ty {
            Ty::Group(g) => m.msgs[g].name.clone(),
            _ => f.name.clone(),
        }),
    }
}
/// Checks that printed fields are exactly the content of `r`.
pub fn matches(m: &Model, r: &RMsg, o: &TOpts, got: &[(Name, Val)], path: &str) -> Result<(), String> {
    if o.expand_any && m.msgs[r.mid].full_name == "google.protobuf.Any" && r.f.contains_key(&1) {
        if let (Some(inner), Some(url)) = (any_inner(m, r), any_name(r)) {
            let [(Name::Any(u), Val::Msg(b))] = got else { return Err(format!("{path}: Any not expanded: {got:?}")) };
            if *u != url {
                return Err(format!("{path}: Any type {u} instead of {url}"));
            }
            return matches(m, &inner, o, b, &format!("{path}[{u}]"));
        }
    }
    let mut want: Vec<(FRef, RVal)> = vec![];
    let md = &m.msgs[r.mid];
    let mut fs: Vec<&FieldDef> = md.fields.iter().collect();
    if !o.index_order {
        fs.sort_by_key(|f| f.number);
    }
    for f in fs {
        match r.f.get(&f.number) {
            Some(v) => want.push((FRef::F(f), v.clone())),
            None if !o.skip_default && !m.has_presence(r.mid, FRef::F(f)) => want.push((FRef::F(f), m.default_of(f))),
            None => {}
        }
    }
    let known = want.len();
    let mut xs: Vec<&ExtDef> = m.exts.iter().filter(|x| x.extendee == r.mid && r.f.contains_key(&x.f.number)).collect();
    xs.sort_by_key(|x| x.f.number);
    for x in xs {
        want.push((FRef::X(x), r.f[&x.f.number].clone()));
    }
    // gather occurrences: every field once, or a repeated field several times in a row
    let mut rest: Vec<(Name, Vec<Val>)> = vec![];
    let mut unks: Vec<(u32, Val)> = vec![];
    for (n, v) in got {
        if let Name::Num(x) = n {
            unks.push((*x, v.clone()));
            continue;
        }
        let vs = match v {
            Val::List(l) => l.clone(),
            v => vec![v.clone()],
        };
        match rest.last_mut() {
            Some((last, acc)) if last == n => acc.extend(vs),
            _ => rest.push((n.clone(), vs)),
        }
    }
    let names: Vec<Name> = rest.iter().map(|x| x.0.clone()).collect();
    let wnames: Vec<Name> = want.iter().map(|x| field_name(m, x.0)).collect();
    let mut a = names.clone();
    let mut b = wnames.clone();
    let key = |n: &Name| format!("{n:?}");
    a.sort_by_key(key);
    b.sort_by_key(key);
    if a != b {
        return Err(format!("{path}: fields {names:?} instead of {wnames:?}"));
    }
    let order = |ns: &[Name], ext: bool| -> Vec<Name> { ns.iter().filter(|n| matches!(n, Name::Ext(_)) == ext).cloned().collect() };
    if order(&names, false) != wnames[..known] || order(&names, true) != wnames[known..] {
        return Err(format!("{path}: field order {names:?} instead of {wnames:?}"));
    }
    for (fr, v) in &want {
        let name = field_name(m, *fr);
        let vals = &rest.iter().find(|x| x.0 == name).unwrap().1;
        let f = fr.def();
        let p = format!("{path}.{}", f.name);
        match v {
            RVal::List(l) => {
                if l.len() != vals.len() {
                    return Err(format!("{p}: {} elements instead of {}", vals.len(), l.len()));
                }
                for (i, (x, t)) in l.iter().zip(vals).enumerate() {
                    one(m, f.ty, x, o, t, &format!("{p}[{i}]"))?;
                }
            }
            RVal::Map(mp) => {
                if mp.len() != vals.len() {
                    return Err(format!("{p}: {} entries instead of {}", vals.len(), mp.len()));
                }
                let (kf, vf) = m.map_kv(f);
                let mut used = vec![false; vals.len()];
                for (k, x) in mp {
                    let mut hit = None;
                    for (i, t) in vals.iter().enumerate() {
                        let Val::Msg(fs) = t else { return Err(format!("{p}: map entry is {t:?}")) };
                        let kt = fs.iter().find(|z| z.0 == Name::Id("key".into()));
                        if !used[i] && kt.map_or(false, |z| scalar_is(m, kf.ty, &k.to_val(), &z.1)) {
                            hit = Some((i, fs));
                            break;
                        }
                    }
                    let Some((i, fs)) = hit else { return Err(format!("{p}: no entry for key {k:?}")) };
                    used[i] = true;
                    let [(n1, _), (n2, t)] = &fs[..] else { return Err(format!("{p}: entry has fields {fs:?}")) };
                    if *n1 != Name::Id("key".into()) || *n2 != Name::Id("value".into()) {
                        return Err(format!("{p}: entry has fields {n1:?}, {n2:?}"));
                    }
                    one(m, vf.ty, x, o, t, &format!("{p}[{k:?}]"))?;
                }
            }
            x => {
                let [t] = &vals[..] else { return Err(format!("{p}: {} values", vals.len())) };
                one(m, f.ty, x, o, t, &p)?;
            }
        }
    }
    if o.skip_unknown {
        if !unks.is_empty() {
            return Err(format!("{path}: unknown fields printed"));
        }
        return Ok(());
    }
    let mut w = r.unk.clone();
    w.sort_by_key(|x| x.0);
    let ns: Vec<u32> = unks.iter().map(|x| x.0).collect();
    let wn: Vec<u32> = w.iter().map(|x| x.0).collect();
    if ns != wn {
        return Err(format!("{path}: unknown fields {ns:?} instead of {wn:?}"));
    }
    for ((n, u), (_, t)) in w.iter().zip(&unks) {
        unk_is(u, t, &format!("{path}.{n}"))?;
    }
    Ok(())
}
fn one(m: &Model, ty: Ty, v: &RVal, o: &TOpts, t: &Val, p: &str) -> Result<(), String> {
    match v {
        RVal::Msg(x) => {
            let Val::Msg(fs) = t else { return Err(format!("{p}: message printed as {t:?}")) };
            matches(m, x, o, fs, p)
        }
        v => {
            if scalar_is(m, ty, v, t) {
                Ok(())
            } else {
                Err(format!("{p}: {t:?} printed for {v:?}"))
            }
        }
    }
}
fn unk_is(u: &RUnk, t: &Val, p: &str) -> Result<(), String> {
    let bad = || Err(format!("{p}: {t:?} printed for {u:?}"));
    let num = |t: &Val| -> Option<u64> {
        let Val::Num(n) = t else { return None };
        match n.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok(),
            None => n.parse().ok(),
        }
    };
    let ok = match (u, t) {
        (RUnk::Varint(x), _) => num(t) == Some(*x),
        (RUnk::F32(x), _) => num(t) == Some(*x as u64),
        (RUnk::F64(x), _) => num(t) == Some(*x),
        (RUnk::Len(b), Val::Str(s)) => b == s,
        (RUnk::Len(b), Val::Msg(fs)) => {
            let Ok(inner) = crate::wire::dec_unks(b) else { return bad() };
            return unks_are(&inner, fs, p);
        }
        (RUnk::Group(g), Val::Msg(fs)) => return unks_are(g, fs, p),
        _ => false,
    };
    if ok { Ok(()) } else { bad() }
}
fn unks_are(w: &[(u32, RUnk)], fs: &[(Name, Val)], p: &str) -> Result<(), String> {
    if w.len() != fs.len() {
        return Err(format!("{p}: {} unknown fields instead of {}", fs.len(), w.len()));
    }
    for ((n, u), (name, t)) in w.iter().zip(fs) {
        if *name != Name::Num(*n) {
            return Err(format!("{p}: {name:?} instead of {n}"));
        }
        unk_is(u, t, &format!("{p}.{n}"))?;
    }
    Ok(())
}

// ---- spelling --------------------------------------------------------------------------------

/// What a value of the tree stands for.
#[derive(Clone, Debug)]
pub enum SV {
    /// tokens of a scalar
    Sc(Ty, Vec<String>),
    Msg(Vec<SF>, usize),
    List(Vec<SV>),
    /// a fault: tokens to be written as they are
    Raw(Vec<String>),
}
#[derive(Clone, Debug)]
pub struct SF {
    pub name: Vec<String>,
    pub val: SV,
    /// number of the field it spells, 0 for an expanded Any
    pub num: u32,
    pub mark: Mark,
}
/// Where a fault was put: the tokens an error should point at.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mark {
    No,
    Name,
    Value,
    /// no colon although required
    NoColon,
    /// no value after the colon
    NoValue,
}

fn sp_int(v: i128, s: &mut Src) -> Vec<String> {
    let a = v.unsigned_abs();
    let t = match s.weighted(&[4, 1, 1, 1]) {
        0 => a.to_string(),
        1 => format!("0x{a:x}"),
        2 => format!("0X{a:X}"),
        _ => format!("0{a:o}"),
    };
    if v < 0 { vec!["-".into(), t] } else { vec![t] }
}
fn case_mix(w: &str, s: &mut Src) -> String {
    w.chars().map(|c| if s.flip() { c.to_ascii_uppercase() } else { c }).collect()
}
fn sp_float(neg: bool, nan: bool, inf: bool, int: Option<u128>, plain: String, exp: String, s: &mut Src) -> Vec<String> {
    let mut o = vec![];
    if neg || nan && s.chance(1, 4) {
        o.push("-".to_string());
    }
    if nan {
        o.push(case_mix("nan", s));
    } else if inf {
        let w = *s.pick(&["inf", "infinity"]);
        o.push(case_mix(w, s));
    } else {
        // a decimal form that is certainly a float literal
        let mut t = match (s.below(4), int) {
            (0, Some(i)) => {
                // integer literal, or with an f
                let mut t = i.to_string();
                if s.chance(1, 3) {
                    t.push(if s.flip() { 'f' } else { 'F' });
                }
                o.push(t);
                return o;
            }
            (1, Some(i)) => match s.below(3) {
                0 => format!("{i}."),
                1 => format!("{i}.000"),
                _ => format!("{i}e+0"),
            },
            (2, _) | (0, _) => exp.replace('e', if s.flip() { "E" } else { "e" }),
            _ => {
                let mut p = plain;
                if !p.contains('.') {
                    p += ".0";
                }
                if let (Some(r), true) = (p.strip_prefix("0."), s.flip()) {
                    if r.chars().next().map_or(false, |c| c.is_ascii_digit()) {
                        p = format!(".{r}");
                    }
                }
                p
            }
        };
        if s.chance(1, 4) {
            t.push(if s.flip() { 'f' } else { 'F' });
        }
        o.push(t);
    }
    o
}
fn small_int(x: f64) -> Option<u128> {
    (x.fract() == 0.0 && x < 1e15 && x != 0.0).then_some(x as u128)
}
pub fn sp_str(b: &[u8], utf8: bool, s: &mut Src) -> Vec<String> {
    let parts = 1 + if s.chance(1, 4) { let n = if s.chance(1, 6) { 8 } else { 3 }; s.us(n) } else { 0 };
    let mut cuts: Vec<usize> = (1..parts).map(|_| s.us(b.len() + 1)).collect();
    cuts.push(0);
    cuts.push(b.len());
    cuts.sort();
    cuts.windows(2)
        .map(|w| {
            let b = &b[w[0]..w[1]];
            let q = if s.flip() { '"' } else { '\'' };
            let mut o = String::from(q);
            let mut i = 0;
            while i < b.len() {
                // a whole character when there is one here
                let n = match b[i] {
                    0..=0x7f => 1,
                    0xc2..=0xdf => 2,
                    0xe0..=0xef => 3,
                    0xf0..=0xf4 => 4,
                    _ => 1,
                };
                let ch = b.get(i..i + n).and_then(|x| std::str::from_utf8(x).ok()).and_then(|t| t.chars().next());
                let byte = |x: u8, s: &mut Src| match s.below(3) {
                    0 => format!("\\{x:03o}"),
                    1 => format!("\\x{x:02x}"),
                    _ => format!("\\X{x:02X}"),
                };
                let (t, step) = match ch {
                    None => (byte(b[i], s), 1),
                    Some(c) => {
                        let simple = match c {
                            '\x07' => Some("\\a"),
                            '\x08' => Some("\\b"),
                            '\x0c' => Some("\\f"),
                            '\n' => Some("\\n"),
                            '\r' => Some("\\r"),
                            '\t' => Some("\\t"),
                            '\x0b' => Some("\\v"),
                            '?' => Some("\\?"),
                            '\\' => Some("\\\\"),
                            '\'' => Some("\\'"),
                            '"' => Some("\\\""),
                            _ => None,
                        };
                        let raw_ok = c != '\0' && c != '\n' && c != '\\' && c != q;
                        match s.weighted(&[if raw_ok { 8 } else { 0 }, if simple.is_some() { 5 } else { 0 }, 1, 1]) {
                            0 => (c.to_string(), c.len_utf8()),
                            1 => (simple.unwrap().to_string(), c.len_utf8()),
                            2 => (byte(b[i], s), 1),
                            _ => {
                                let v = c as u32;
                                (if v <= 0xffff && s.flip() { format!("\\u{v:04x}") } else { format!("\\U{v:08x}") }, c.len_utf8())
                            }
                        }
                    }
                };
                o += &t;
                i += step;
            }
            let _ = utf8;
            o.push(q);
            o
        })
        .collect()
}
pub fn sp_scalar(m: &Model, ty: Ty, v: &RVal, s: &mut Src) -> Vec<String> {
    match v {
        RVal::Bool(b) => vec![s.pick(if *b { &["true", "True", "t", "1", "0x1", "01"] } else { &["false", "False", "f", "0", "0x0", "00"] }).to_string()],
        RVal::I32(x) => sp_int(*x as i128, s),
        RVal::I64(x) => sp_int(*x as i128, s),
        RVal::U32(x) => sp_int(*x as i128, s),
        RVal::U64(x) => sp_int(*x as i128, s),
        RVal::F32(x) => {
            let a = x.abs();
            sp_float(x.is_sign_negative() && !x.is_nan(), x.is_nan(), x.is_infinite(), small_int(a as f64), format!("{a}"), format!("{a:e}"), s)
        }
        RVal::F64(x) => {
            let a = x.abs();
            sp_float(x.is_sign_negative() && !x.is_nan(), x.is_nan(), x.is_infinite(), small_int(a), format!("{a}"), format!("{a:e}"), s)
        }
        RVal::Str(t) => sp_str(t.as_bytes(), true, s),
        RVal::Bytes(b) => sp_str(b, false, s),
        RVal::Enum(n) => {
            let Ty::Enum(e) = ty else { unreachable!() };
            let names: Vec<&String> = m.enums[e].values.iter().filter(|x| x.1 == *n).map(|x| &x.0).collect();
            if names.is_empty() || s.chance(1, 3) { sp_int(*n as i128, s) } else { vec![s.pick(&names).to_string()] }
        }
        _ => unreachable!(),
    }
}
fn dotted(t: &str, out: &mut Vec<String>) {
    for (i, p) in t.split('.').enumerate() {
        if i > 0 {
            out.push(".".into());
        }
        out.push(p.into());
    }
}
pub fn sp_name(n: &Name) -> Vec<String> {
    match n {
        Name::Id(t) => vec![t.clone()],
        Name::Num(n) => vec![n.to_string()],
        Name::Ext(t) | Name::Any(t) => {
            let mut o = vec!["[".to_string()];
            for (i, p) in t.split('/').enumerate() {
                if i > 0 {
                    o.push("/".into());
                }
                dotted(p, &mut o);
            }
            o.push("]".into());
            o
        }
    }
}
fn sp_val(m: &Model, ty: Ty, v: &RVal, s: &mut Src) -> SV {
    match v {
        RVal::Msg(x) => sp_msg(m, x, s),
        _ => SV::Sc(ty, sp_scalar(m, ty, v, s)),
    }
}
pub fn sp_msg(m: &Model, r: &RMsg, s: &mut Src) -> SV {
    SV::Msg(sp_fields(m, r, s), r.mid)
}
pub fn sp_fields(m: &Model, r: &RMsg, s: &mut Src) -> Vec<SF> {
    let md = &m.msgs[r.mid];
    if md.full_name == "google.protobuf.Any" && !s.chance(1, 4) {
        if let (Some(inner), Some(url)) = (any_inner(m, r), any_name(r)) {
            return vec![SF { name: sp_name(&Name::Any(url)), val: sp_msg(m, &inner, s), num: 0, mark: Mark::No }];
        }
    }
    let mut out: Vec<SF> = vec![];
    let mut frs: Vec<FRef> = md.fields.iter().map(FRef::F).collect();
    frs.extend(m.exts.iter().filter(|x| x.extendee == r.mid).map(FRef::X));
    for fr in frs {
        let f = fr.def();
        let name = sp_name(&field_name(m, fr));
        let mut push = |out: &mut Vec<SF>, val: SV| out.push(SF { name: name.clone(), val, num: f.number, mark: Mark::No });
        let vals: Vec<SV> = match r.f.get(&f.number) {
            None => {
                if f.card == Card::Repeated {
                    if s.chance(1, 12) {
                        push(&mut out, SV::List(vec![]));
                    }
                } else if !m.has_presence(r.mid, fr) && s.chance(1, 8) {
                    push(&mut out, sp_val(m, f.ty, &m.default_of(f), s));
                }
                continue;
            }
            Some(RVal::List(l)) => l.iter().map(|x| sp_val(m, f.ty, x, s)).collect(),
            Some(RVal::Map(mp)) => {
                let (kf, vf) = m.map_kv(f);
                let mid = f.ty.msg().unwrap();
                // entries whose key comes again later have no effect
                let mut entries: Vec<(RKey, RVal)> = mp.iter().map(|(k, x)| (k.clone(), x.clone())).collect();
                s.shuffle(&mut entries);
                if !entries.is_empty() && s.chance(1, 6) {
                    for _ in 0..1 + s.below(2) {
                        let i = s.us(entries.len());
                        let k = entries[i].0.clone();
                        let over = if s.flip() { m.default_of(vf) } else { s.pick(&entries).1.clone() };
                        let at = s.us(i + 1);
                        entries.insert(at, (k, over));
                    }
                }
                let es: Vec<SV> = entries
                    .iter()
                    .map(|(k, x)| {
                        let mut fs = vec![];
                        let kv = k.to_val();
                        if kv != m.zero(kf.ty) || !s.chance(1, 2) {
                            fs.push(SF { name: vec!["key".into()], val: sp_val(m, kf.ty, &kv, s), num: 1, mark: Mark::No });
                        }
                        if *x != m.default_of(vf) || !s.chance(1, 2) {
                            fs.push(SF { name: vec!["value".into()], val: sp_val(m, vf.ty, x, s), num: 2, mark: Mark::No });
                        }
                        if s.flip() {
                            fs.reverse();
                        }
                        SV::Msg(fs, mid)
                    })
                    .collect();
                es
            }
            Some(v) => {
                let v = sp_val(m, f.ty, v, s);
                push(&mut out, v);
                continue;
            }
        };
        // split a repeated field into single values and lists
        let mut i = 0;
        loop {
            if s.chance(1, 16) {
                // an empty list adds nothing
                push(&mut out, SV::List(vec![]));
            }
            if i >= vals.len() {
                break;
            }
            if s.flip() {
                push(&mut out, vals[i].clone());
                i += 1;
            } else {
                let n = 1 + s.us(vals.len() - i);
                push(&mut out, SV::List(vals[i..i + n].to_vec()));
                i += n;
            }
        }
    }
    // any order, but occurrences of one field keep theirs
    let mut ord: Vec<u32> = out.iter().map(|f| f.num).collect();
    s.shuffle(&mut ord);
    let mut res = vec![];
    for n in ord {
        let i = out.iter().position(|f| f.num == n).unwrap();
        res.push(out.remove(i));
    }
    res
}
/// A token with the fault marker.
pub type T = (String, bool);
fn flat_val(v: &SV, mark: bool, s: &mut Src, out: &mut Vec<T>) {
    match v {
        SV::Sc(_, ts) | SV::Raw(ts) => out.extend(ts.iter().map(|t| (t.clone(), mark))),
        SV::Msg(fs, _) => {
            let (a, b) = if s.chance(1, 4) { ("<", ">") } else { ("{", "}") };
            out.push((a.into(), mark));
            flat(fs, s, out);
            out.push((b.into(), mark));
        }
        SV::List(l) => {
            out.push(("[".into(), mark));
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    out.push((",".into(), mark));
                }
                flat_val(x, mark, s, out);
            }
            out.push(("]".into(), mark));
        }
    }
}
pub fn flat(fs: &[SF], s: &mut Src, out: &mut Vec<T>) {
    for f in fs {
        out.extend(f.name.iter().map(|t| (t.clone(), f.mark == Mark::Name)));
        let opt = match &f.val {
            SV::Msg(..) => true,
            SV::List(l) => !l.is_empty() && l.iter().all(|v| matches!(v, SV::Msg(..))),
            _ => false,
        };
        if f.mark != Mark::NoColon && (!opt || s.flip()) {
            out.push((":".into(), false));
        }
        if f.mark != Mark::NoValue {
            flat_val(&f.val, f.mark == Mark::Value || f.mark == Mark::NoColon, s, out);
        }
        match s.below(5) {
            0 => out.push((",".into(), f.mark == Mark::NoValue)),
            1 => out.push((";".into(), f.mark == Mark::NoValue)),
            _ => {}
        }
    }
}
fn wordy(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '.'
}
fn gap(s: &mut Src, need: bool, out: &mut String) {
    let n = s.weighted(&[6, 3, 1]);
    if n == 0 && !need {
        return;
    }
    for _ in 0..n.max(1) {
        match s.weighted(&[6, 2, 1, 1, 2]) {
            0 => out.push(' '),
            1 => out.push('\n'),
            2 => out.push_str("\t\r\n"),
            3 => out.push_str("\u{b}\u{c}"),
            _ => {
                out.push('#');
                for _ in 0..s.below(5) {
                    let c = s.ch();
                    if c != '\n' {
                        out.push(c);
                    }
                }
                out.push('\n');
            }
        }
    }
}
/// Writes tokens with random separation; also gives the byte range of the marked tokens.
pub fn join(ts: &[T], s: &mut Src) -> (String, Option<(usize, usize)>) {
    let mut o = String::new();
    let mut r: Option<(usize, usize)> = None;
    gap(s, false, &mut o);
    for (i, (t, mk)) in ts.iter().enumerate() {
        if i > 0 {
            let a = ts[i - 1].0.chars().last().unwrap_or(' ');
            let b = t.chars().next().unwrap_or(' ');
            gap(s, wordy(a) && wordy(b), &mut o);
        }
        let st = o.len();
        o += t;
        if *mk {
            r = Some((r.map_or(st, |x| x.0), o.len()));
        }
    }
    // a last comment may lack its newline
    if s.chance(1, 6) {
        o += *s.pick(&[" ", "\n", "#", "# end", " \t", "#\n"]);
    }
    (o, r)
}
/// Well-known type names an expanded Any may name (used by generators).
pub fn expandable(m: &Model, mid: usize) -> bool {
    !m.msgs[mid].map_entry && (!m.files[m.msgs[mid].file].wkt || is_wkt(&m.msgs[mid].full_name))
}
