//! C06, C07: the reflection API.

use super::wirep::{describe, env};
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::src::Src;
use crate::value::*;
use crate::wire;
use prost::Message;
use prost_reflect::{DynamicMessage, MapKey, ReflectMessage, SetFieldError, Value};
use std::collections::{BTreeMap, HashMap};

pub const C06: Prop = Prop {
    id: "C06",
    run: c06,
    quick: 500_000,
    thorough: 4_000_000,
    rule: "case = generated schema + history of 1-20 reflection calls on one message (with clones), full state compared with a map model after every call; non-trivial = at least 4 calls of which 2 change state; distinct = hash of the executed calls and schema",
};

fn all_frs<'a>(m: &'a Model, mid: usize) -> Vec<FRef<'a>> {
    let mut v: Vec<FRef> = m.msgs[mid].fields.iter().map(FRef::F).collect();
    v.extend(m.exts.iter().filter(|x| x.extendee == mid).map(FRef::X));
    v
}
/// Compares everything the API shows about `d` with the model state.
fn check_state(e: &Env, d: &DynamicMessage, st: &RMsg) -> R {
    let m = e.m;
    let md = &m.msgs[st.mid];
    for f in &md.fields {
        let fd = match d.descriptor().get_field(f.number) {
            Some(x) => x,
            None => return fail("lookup", format!("field {} not found by number", f.number)),
        };
        let want_has = st.f.contains_key(&f.number);
        let want = st.f.get(&f.number).cloned().unwrap_or_else(|| m.default_of(f));
        ensure!(d.has_field(&fd) == want_has, "has", "has_field({}) = {} expected {want_has}", f.name, d.has_field(&fd));
        ensure!(d.has_field_by_number(f.number) == want_has, "has", "has_field_by_number({}) expected {want_has}", f.number);
        ensure!(d.has_field_by_name(&f.name) == want_has, "has", "has_field_by_name({}) expected {want_has}", f.name);
        let (a, b, c) = (d.get_field(&fd), d.get_field_by_number(f.number), d.get_field_by_name(&f.name));
        let (b, c) = match (b, c) {
            (Some(b), Some(c)) => (b, c),
            _ => return fail("get-none", format!("get of existing field {} gives None", f.name)),
        };
        for (k, v) in [("desc", &a), ("number", &b), ("name", &c)] {
            let got = e.from_val(v);
            ensure!(same_or_default(&got, &want), "get", "get_field by {k} of {}: expected {want:?} got {got:?}", f.name);
        }
    }
    for (i, x) in m.exts.iter().enumerate() {
        if x.extendee != st.mid {
            continue;
        }
        let want_has = st.f.contains_key(&x.f.number);
        let want = st.f.get(&x.f.number).cloned().unwrap_or_else(|| m.default_of(&x.f));
        ensure!(d.has_extension(&e.exts[i]) == want_has, "has-ext", "has_extension({}) expected {want_has}", x.full_name);
        let got = e.from_val(&d.get_extension(&e.exts[i]));
        ensure!(same_or_default(&got, &want), "get-ext", "get_extension {}: expected {want:?} got {got:?}", x.full_name);
    }
    // iterators
    let mut seen = BTreeMap::new();
    for (fd, v) in d.fields() {
        ensure!(fd.containing_oneof().is_some() || true, "iter", "");
        if seen.insert(fd.number(), e.from_val(v)).is_some() {
            return fail("iter-dup", format!("fields() yields {} twice", fd.number()));
        }
    }
    for (x, v) in d.extensions() {
        if seen.insert(x.number(), e.from_val(v)).is_some() {
            return fail("iter-dup", format!("extensions() yields {} twice", x.number()));
        }
    }
    ensure!(seen == st.f, "iter", "iterators yield {seen:?}, expected {:?}", st.f);
    let unk: Vec<u32> = d.unknown_fields().map(|u| u.number()).collect();
    ensure!(unk.len() == st.unk.len(), "unknown", "unknown fields {unk:?}, expected {:?}", st.unk);
    let full = e.from_dyn(d);
    ensure!(full == *st, "state", "state differs: {}", diff(m, st, &full));
    Ok(())
}
fn same_or_default(a: &RVal, b: &RVal) -> bool {
    a == b || matches!((a, b), (RVal::F64(x), RVal::F64(y)) if *x == 0.0 && *y == 0.0) || matches!((a, b), (RVal::F32(x), RVal::F32(y)) if *x == 0.0 && *y == 0.0)
}
fn store(m: &Model, st: &mut RMsg, fr: FRef, v: RVal) {
    let f = fr.def();
    if let (FRef::F(_), Some(o)) = (fr, f.oneof) {
        for g in &m.msgs[st.mid].fields {
            if g.oneof == Some(o) {
                st.f.remove(&g.number);
            }
        }
    }
    if m.has_presence(st.mid, fr) || !is_implicit_default(m, f, &v) {
        st.f.insert(f.number, v);
    } else {
        st.f.remove(&f.number);
    }
}
fn gen_for(s: &mut Src, m: &Model, mid: usize, fr: FRef) -> RVal {
    let f = fr.def();
    let mut vc = VCfg { budget: 6, depth: 2, ..Default::default() };
    if s.chance(1, 5) {
        m.default_of(f)
    } else {
        gen_field_value(s, m, mid, fr, 2, &mut vc)
    }
}

fn c06(c: &mut Ctx) -> R {
    let cfg = Cfg { max_msgs: 3, max_fields: 7, ..Default::default() };
    let m = gen_model(&mut c.s, &cfg);
    let mids: Vec<usize> = user_msgs(&m);
    let mid = *c.s.pick(&mids);
    let e = env(&m)?;
    c.note(|| format!("schema: {}\nmessage type: {}", describe(&m), m.msgs[mid].full_name));
    let frs = all_frs(&m, mid);
    let md = &m.msgs[mid];
    let mut d = DynamicMessage::new(e.msgs[mid].clone());
    let mut st = RMsg::new(mid);
    let mut snaps: Vec<(DynamicMessage, RMsg)> = vec![];
    let steps = 1 + c.s.below(20);
    let mut changes = 0;
    for step in 0..steps {
        let before = st.clone();
        let op = if frs.is_empty() { 9 + c.s.below(10) } else { c.s.below(24) };
        let fr = if frs.is_empty() { None } else { Some(*c.s.pick(&frs)) };
        let how = c.s.below(3);
        let xi = match fr {
            Some(FRef::X(x)) => m.exts.iter().position(|y| y.full_name == x.full_name),
            _ => None,
        };
        c.digest(&[op as u8, how as u8]);
        if let Some(fr) = fr {
            c.digest(&fr.def().number.to_le_bytes());
        }
        match op {
            0..=3 | 19 => {
                // set
                let fr = match fr { Some(f) => f, None => continue };
                let v = gen_for(&mut c.s, &m, mid, fr);
                let f = fr.def();
                c.note(|| format!("{step}: set {} ({how}) = {v:?}", f.name));
                let dv = e.to_val(&v);
                match (xi, how) {
                    (Some(i), 0) => d.set_extension(&e.exts[i], dv),
                    (Some(i), _) => {
                        let _ = i;
                        *d.get_extension_mut(&e.exts[i]) = dv
                    }
                    (None, 0) => d.set_field(&md_field(&e, mid, f.number), dv),
                    (None, 1) => d.set_field_by_name(&f.name, dv),
                    (None, _) => d.set_field_by_number(f.number, dv),
                }
                store(&m, &mut st, fr, v);
            }
            4 | 20 => {
                let fr = match fr { Some(f) => f, None => continue };
                let f = fr.def();
                c.note(|| format!("{step}: clear {} ({how})", f.name));
                match (xi, how) {
                    (Some(i), _) => d.clear_extension(&e.exts[i]),
                    (None, 0) => d.clear_field(&md_field(&e, mid, f.number)),
                    (None, 1) => d.clear_field_by_name(&f.name),
                    (None, _) => d.clear_field_by_number(f.number),
                }
                st.f.remove(&f.number);
            }
            5 | 21 => {
                let fr = match fr { Some(f) => f, None => continue };
                let f = fr.def();
                c.note(|| format!("{step}: take {} ({how})", f.name));
                let got = match (xi, how) {
                    (Some(i), _) => d.take_extension(&e.exts[i]),
                    (None, 0) => d.take_field(&md_field(&e, mid, f.number)),
                    (None, 1) => d.take_field_by_name(&f.name),
                    (None, _) => d.take_field_by_number(f.number),
                };
                let want = st.f.remove(&f.number);
                let got = got.map(|v| e.from_val(&v));
                ensure!(got == want, "take", "take {} returned {got:?}, expected {want:?}", f.name);
            }
            6 | 7 | 22 => {
                // mutable access, optionally modifying in place
                let fr = match fr { Some(f) => f, None => continue };
                let f = fr.def();
                let edit = c.s.below(3);
                c.note(|| format!("{step}: get_mut {} ({how}) edit {edit}", f.name));
                let cur = st.f.get(&f.number).cloned().unwrap_or_else(|| m.default_of(f));
                let mut newv = cur.clone();
                let mut vc = VCfg { budget: 4, ..Default::default() };
                let repl = gen_for(&mut c.s, &m, mid, fr);
                let elem = if m.is_list(f) { Some(gen_val(&mut c.s, &m, f.ty, 1, &mut vc)) } else { None };
                let entry = if m.is_map(f) {
                    let (k, v) = m.map_kv(f);
                    let mut vv = gen_val(&mut c.s, &m, v.ty, 1, &mut vc);
                    super::wirep::unsign_val(&mut vv);
                    Some((gen_scalar(&mut c.s, &m, k.ty, &vc).to_key().unwrap(), vv))
                } else {
                    None
                };
                let r: &mut Value = match (xi, how) {
                    (Some(i), _) => d.get_extension_mut(&e.exts[i]),
                    (None, 0) => {
                        let fd = md_field(&e, mid, f.number);
                        d.get_field_mut(&fd)
                    }
                    (None, 1) => match d.get_field_by_name_mut(&f.name) {
                        Some(r) => r,
                        None => return fail("get-mut-none", format!("get_field_by_name_mut({}) is None", f.name)),
                    },
                    (None, _) => match d.get_field_by_number_mut(f.number) {
                        Some(r) => r,
                        None => return fail("get-mut-none", format!("get_field_by_number_mut({}) is None", f.number)),
                    },
                };
                let seen = e.from_val(r);
                ensure!(same_or_default(&seen, &cur), "get-mut", "get_mut {} shows {seen:?}, expected {cur:?}", f.name);
                match edit {
                    0 => {}
                    1 => {
                        *r = e.to_val(&repl);
                        newv = repl;
                    }
                    _ => {
                        if let (Some(x), Some(l)) = (&elem, r.as_list_mut()) {
                            l.push(e.to_val(x));
                            if let RVal::List(l) = &mut newv {
                                l.push(x.clone());
                            }
                        } else if let (Some((k, v)), Some(mp)) = (&entry, r.as_map_mut()) {
                            mp.insert(k.to_dyn(), e.to_val(v));
                            if let RVal::Map(l) = &mut newv {
                                l.insert(k.clone(), v.clone());
                            }
                        } else if let Some(x) = r.as_message_mut() {
                            x.clear();
                            newv = RVal::Msg(RMsg::new(f.ty.msg().unwrap()));
                        }
                    }
                }
                store(&m, &mut st, fr, newv);
            }
            8 | 23 => {
                // raw edit of a oneof / message through merge of its encoding
                let mut vc = VCfg { budget: 8, unk: c.s.chance(1, 3), ..Default::default() };
                let w = gen_msg(&mut c.s, &m, mid, 2, &mut vc);
                let b = wire::noisy(&mut c.s, &m, &w, false);
                c.note(|| format!("{step}: merge {w:?}"));
                if let Err(x) = d.merge(&b[..]) {
                    return fail("merge", format!("merge failed: {x}"));
                }
                wire::merge(&m, &mut st, &b, 100).expect("harness: merge");
                wire::normalize(&m, &mut st);
            }
            9 => {
                c.note(|| format!("{step}: clone"));
                snaps.push((d.clone(), st.clone()));
                if c.s.flip() && snaps.len() > 1 {
                    // continue on an earlier clone
                    let k = c.s.us(snaps.len());
                    let (a, b) = snaps[k].clone();
                    d = a;
                    st = b;
                }
            }
            10 => {
                c.note(|| format!("{step}: take_fields"));
                let limit = if c.s.flip() { usize::MAX } else { c.s.us(3) };
                let got: Vec<(u32, RVal)> = d.take_fields().take(limit).map(|(f, v)| (f.number(), e.from_val(&v))).collect();
                let nf = st.f.keys().filter(|n| md.fields.iter().any(|f| f.number == **n)).count();
                ensure!(got.len() == nf.min(limit), "take-fields", "take_fields yields {} of {nf} (limit {limit})", got.len());
                for (n, v) in got {
                    let w = st.f.remove(&n);
                    ensure!(w.as_ref() == Some(&v), "take-fields", "take_fields {n} yields {v:?}, expected {w:?}");
                }
            }
            11 => {
                c.note(|| format!("{step}: take_extensions"));
                let limit = if c.s.flip() { usize::MAX } else { c.s.us(3) };
                let got: Vec<(u32, RVal)> = d.take_extensions().take(limit).map(|(f, v)| (f.number(), e.from_val(&v))).collect();
                let nf = st.f.keys().filter(|n| md.fields.iter().all(|f| f.number != **n)).count();
                ensure!(got.len() == nf.min(limit), "take-exts", "take_extensions yields {} of {nf} (limit {limit})", got.len());
                for (n, v) in got {
                    let w = st.f.remove(&n);
                    ensure!(w.as_ref() == Some(&v), "take-exts", "take_extensions {n} yields {v:?}, expected {w:?}");
                }
            }
            12 => {
                c.note(|| format!("{step}: fields_mut/extensions_mut"));
                let mut seen = vec![];
                let mut edits: HashMap<u32, RVal> = HashMap::new();
                for fr in &frs {
                    if c.s.chance(1, 3) {
                        edits.insert(fr.def().number, gen_for(&mut c.s, &m, mid, *fr));
                    }
                }
                for (f, v) in d.fields_mut() {
                    seen.push((f.number(), e.from_val(v)));
                    if let Some(x) = edits.get(&f.number()) {
                        *v = e.to_val(x);
                    }
                }
                for (f, v) in d.extensions_mut() {
                    seen.push((f.number(), e.from_val(v)));
                    if let Some(x) = edits.get(&f.number()) {
                        *v = e.to_val(x);
                    }
                }
                let seen_map: BTreeMap<u32, RVal> = seen.iter().cloned().collect();
                ensure!(seen.len() == seen_map.len() && seen_map == st.f, "fields-mut", "mutable iterators yield {seen:?}, expected {:?}", st.f);
                for (n, _) in seen {
                    if let Some(x) = edits.get(&n) {
                        let fr = m.field(mid, n).unwrap();
                        if m.has_presence(mid, fr) || !is_implicit_default(&m, fr.def(), x) {
                            st.f.insert(n, x.clone());
                        } else {
                            st.f.remove(&n);
                        }
                    }
                }
            }
            13 => {
                c.note(|| format!("{step}: take_unknown_fields"));
                let got: Vec<u32> = d.take_unknown_fields().map(|u| u.number()).collect();
                ensure!(got.len() == st.unk.len(), "take-unknown", "take_unknown_fields yields {got:?}, expected {:?}", st.unk);
                st.unk.clear();
            }
            14 => {
                if c.s.chance(1, 4) {
                    c.note(|| format!("{step}: clear all"));
                    d.clear();
                    st = RMsg::new(mid);
                }
            }
            15 => {
                // absent names and numbers
                let n = free_number(&mut c.s, &m, mid);
                let nm = *c.s.pick(&["nope", "", "no.such", "[x]"]);
                ensure!(!d.has_field_by_number(n) && !d.has_field_by_name(nm), "absent", "absent field reported present");
                ensure!(d.get_field_by_number(n).is_none() && d.get_field_by_name(nm).is_none(), "absent", "absent field readable");
                ensure!(d.get_field_by_number_mut(n).is_none() && d.get_field_by_name_mut(nm).is_none(), "absent", "absent field mutable");
                ensure!(d.take_field_by_number(n).is_none() && d.take_field_by_name(nm).is_none(), "absent", "absent field taken");
                d.clear_field_by_number(n);
                d.clear_field_by_name(nm);
                ensure!(d.try_set_field_by_number(n, Value::I32(1)) == Err(SetFieldError::NotFound), "absent", "set of absent number not NotFound");
                ensure!(d.try_set_field_by_name(nm, Value::I32(1)) == Err(SetFieldError::NotFound), "absent", "set of absent name not NotFound");
            }
            16 => {
                // round trip through bytes keeps the state
                let b = d.encode_to_vec();
                match DynamicMessage::decode(e.msgs[mid].clone(), &b[..]) {
                    Ok(x) => {
                        if c.s.flip() {
                            d = x
                        } else {
                            check_state(&e, &x, &st)?
                        }
                    }
                    Err(x) => return fail("encode", format!("own encoding rejected: {x}")),
                }
            }
            17 => {
                // transcode is a merge of the other message's bytes
                let mut vc = VCfg { budget: 6, ..Default::default() };
                let w = gen_msg(&mut c.s, &m, mid, 2, &mut vc);
                let other = e.to_dyn(&w);
                c.note(|| format!("{step}: transcode_from {w:?}"));
                if d.transcode_from(&other).is_err() {
                    return fail("transcode", "transcode_from failed");
                }
                let b = wire::enc(&m, &w);
                wire::merge(&m, &mut st, &b, 100).expect("harness");
                wire::normalize(&m, &mut st);
            }
            _ => {
                let def = match c.s.below(2) {
                    0 => d.clone() == d,
                    _ => !(d.clone() != d),
                };
                let nan = format!("{:?}", st).contains("NaN");
                ensure!(def || nan, "eq", "a message differs from its clone");
            }
        }
        if st != before {
            changes += 1;
        }
        check_state(&e, &d, &st)?;
    }
    for (k, (s, want)) in snaps.iter().enumerate() {
        check_state(&e, s, want).map_err(|f| Fail { sig: "clone".into(), msg: format!("clone {k} changed: {}", f.msg) })?;
    }
    c.nontrivial = steps >= 4 && changes >= 2;
    c.label_if(!snaps.is_empty(), "cloned");
    c.label_if(md.oneofs.len() > 0, "oneof");
    c.label_if(frs.iter().any(|f| matches!(f, FRef::X(_))), "extensions");
    c.label_if(m.is_proto3(mid), "proto3");
    c.digest(md.full_name.as_bytes());
    Ok(())
}
fn md_field(e: &Env, mid: usize, n: u32) -> prost_reflect::FieldDescriptor {
    e.msgs[mid].get_field(n).expect("field by number")
}

pub const C07: Prop = Prop {
    id: "C07",
    run: c07,
    quick: 600_000,
    thorough: 8_000_000,
    rule: "case = generated schema and message + attempts to set fields to values generated for the same or another field, kind or container; oracle = independent type check + state comparison; non-trivial = at least one refused and one accepted attempt; distinct = hash of schema and attempts",
};
/// Some(true): of the field's type.  Some(false): cannot be encoded as the field.  None: a value
/// the documentation leaves open (a bare element for a repeated field, another message type).
pub fn fits(m: &Model, f: &FieldDef, v: &RVal) -> Option<bool> {
    fn elem(ty: Ty, v: &RVal) -> Option<bool> {
        Some(match (ty, v) {
            (Ty::Bool, RVal::Bool(_)) => true,
            (Ty::Int32 | Ty::Sint32 | Ty::Sfixed32, RVal::I32(_)) => true,
            (Ty::Int64 | Ty::Sint64 | Ty::Sfixed64, RVal::I64(_)) => true,
            (Ty::Uint32 | Ty::Fixed32, RVal::U32(_)) => true,
            (Ty::Uint64 | Ty::Fixed64, RVal::U64(_)) => true,
            (Ty::Float, RVal::F32(_)) => true,
            (Ty::Double, RVal::F64(_)) => true,
            (Ty::String, RVal::Str(_)) => true,
            (Ty::Bytes, RVal::Bytes(_)) => true,
            (Ty::Enum(_), RVal::Enum(_)) => true,
            (Ty::Message(a) | Ty::Group(a), RVal::Msg(x)) => {
                if a == x.mid {
                    true
                } else {
                    return None;
                }
            }
            _ => false,
        })
    }
    fn all(it: impl Iterator<Item = Option<bool>>) -> Option<bool> {
        let mut open = false;
        for x in it {
            match x {
                Some(false) => return Some(false),
                None => open = true,
                _ => {}
            }
        }
        if open { None } else { Some(true) }
    }
    if m.is_map(f) {
        let (k, vf) = m.map_kv(f);
        match v {
            RVal::Map(x) => all(x.iter().flat_map(|(kk, vv)| [elem(k.ty, &kk.to_val()), elem(vf.ty, vv)])),
            RVal::Msg(_) => None,
            _ => Some(false),
        }
    } else if f.card == Card::Repeated {
        match v {
            RVal::List(x) => all(x.iter().map(|y| elem(f.ty, y))),
            _ => match elem(f.ty, v) {
                Some(true) | None => None,
                x => x,
            },
        }
    } else {
        elem(f.ty, v)
    }
}
fn any_value(s: &mut Src, m: &Model, frs: &[FRef], mid: usize) -> RVal {
    let mut vc = VCfg { budget: 5, ..Default::default() };
    match s.weighted(&[5, 3, 2, 2]) {
        0 => {
            let fr = *s.pick(frs);
            gen_field_value(s, m, mid, fr, 1, &mut vc)
        }
        1 => {
            let ty = *s.pick(&SCALARS);
            gen_scalar(s, m, ty, &vc)
        }
        2 => {
            // list, possibly heterogeneous
            let n = s.below(4);
            let ty = *s.pick(&SCALARS);
            let mut l: Vec<RVal> = (0..n).map(|_| gen_scalar(s, m, ty, &vc)).collect();
            if s.flip() && !l.is_empty() {
                let t2 = *s.pick(&SCALARS);
                let k = s.us(l.len());
                l[k] = gen_scalar(s, m, t2, &vc);
            }
            RVal::List(l)
        }
        _ => {
            let n = s.below(3);
            let kt = *s.pick(&MAP_KEYS);
            let vt = *s.pick(&SCALARS);
            let mut mp = BTreeMap::new();
            for _ in 0..n {
                let k = gen_scalar(s, m, kt, &vc).to_key().unwrap();
                let v = gen_scalar(s, m, vt, &vc);
                mp.insert(k, v);
            }
            RVal::Map(mp)
        }
    }
}
/// Same value with one element spoiled.
fn spoil(s: &mut Src, m: &Model, v: &mut RVal) {
    let ty = *s.pick(&SCALARS);
    let bad = gen_scalar(s, m, ty, &VCfg::default());
    match v {
        RVal::List(l) if !l.is_empty() => {
            let k = s.us(l.len());
            l[k] = if s.chance(1, 4) { RVal::List(vec![]) } else { bad };
        }
        RVal::Map(mp) if !mp.is_empty() => {
            let k = mp.keys().nth(s.us(mp.len())).unwrap().clone();
            if s.flip() {
                mp.insert(k, bad);
            } else if let Some(bk) = bad.to_key() {
                let x = mp.remove(&k).unwrap();
                mp.insert(bk, x);
            }
        }
        x => *x = bad,
    }
}
fn c07(c: &mut Ctx) -> R {
    let cfg = Cfg { max_msgs: 3, max_fields: 6, ..Default::default() };
    let mut vc = VCfg { budget: 10, ..Default::default() };
    let (m, mid, v) = super::wirep::gen_case(&mut c.s, &cfg, &mut vc);
    let e = env(&m)?;
    let frs = all_frs(&m, mid);
    if frs.is_empty() {
        return Ok(());
    }
    c.note(|| format!("schema: {}\nmessage type: {}\nprior: {v:?}", describe(&m), m.msgs[mid].full_name));
    let mut d = e.to_dyn(&v);
    let mut st = v;
    let (mut acc, mut refd) = (0, 0);
    for _ in 0..(1 + c.s.below(5)) {
        let fr = *c.s.pick(&frs);
        let f = fr.def();
        let mut val = match c.s.weighted(&[2, 3, 3]) {
            0 => gen_field_value(&mut c.s, &m, mid, fr, 1, &mut VCfg { budget: 5, ..Default::default() }),
            1 => {
                let mut x = gen_field_value(&mut c.s, &m, mid, fr, 1, &mut VCfg { budget: 5, ..Default::default() });
                spoil(&mut c.s, &m, &mut x);
                x
            }
            _ => any_value(&mut c.s, &m, &frs, mid),
        };
        // (a negative zero is dropped as a default value in a map of a proto3 file)
        super::wirep::unsign_val(&mut val);
        let want = fits(&m, f, &val);
        let how = c.s.below(3);
        c.digest(format!("{} {how} {val:?}", f.number).as_bytes());
        c.note(|| format!("try_set {} ({how}) = {val:?} (fits: {want:?})", f.name));
        let dv = e.to_val(&val);
        let valid = match fr {
            FRef::F(_) => dv.is_valid_for_field(&md_field(&e, mid, f.number)),
            FRef::X(x) => {
                let i = m.exts.iter().position(|y| y.full_name == x.full_name).unwrap();
                dv.is_valid_for_extension(&e.exts[i])
            }
        };
        if let Some(w) = want {
            ensure!(valid == w, "is-valid", "is_valid_for_field({}, {val:?}) = {valid}", f.name);
        } else {
            c.label("open");
            continue;
        }
        let w = want.unwrap();
        // kind-level check on single values
        if !matches!(val, RVal::List(_) | RVal::Map(_)) && f.card != Card::Repeated {
            let k = match fr {
                FRef::F(_) => md_field(&e, mid, f.number).kind(),
                FRef::X(x) => e.exts[m.exts.iter().position(|y| y.full_name == x.full_name).unwrap()].kind(),
            };
            ensure!(dv.is_valid(&k) == w, "is-valid-kind", "is_valid({k:?}, {val:?}) = {}", dv.is_valid(&k));
        }
        let res = match fr {
            FRef::X(x) => {
                if w {
                    let i = m.exts.iter().position(|y| y.full_name == x.full_name).unwrap();
                    d.set_extension(&e.exts[i], dv.clone());
                    Ok(())
                } else {
                    continue;
                }
            }
            FRef::F(_) => match how {
                0 => d.try_set_field(&md_field(&e, mid, f.number), dv.clone()),
                1 => d.try_set_field_by_name(&f.name, dv.clone()),
                _ => d.try_set_field_by_number(f.number, dv.clone()),
            },
        };
        match (w, res) {
            (true, Ok(())) => {
                acc += 1;
                store(&m, &mut st, fr, val.clone());
                let got = match fr {
                    FRef::F(_) => e.from_val(&d.get_field_by_number(f.number).unwrap()),
                    FRef::X(x) => e.from_val(&d.get_extension(&e.exts[m.exts.iter().position(|y| y.full_name == x.full_name).unwrap()])),
                };
                ensure!(same_or_default(&got, &val), "read-back", "set {val:?} but reads {got:?}");
            }
            (false, Err(SetFieldError::InvalidType { field, value })) => {
                refd += 1;
                ensure!(field.number() == f.number, "error-field", "error names field {} instead of {}", field.number(), f.number);
                ensure!(e.from_val(&value) == val, "error-value", "error carries another value");
            }
            (w, r) => return fail("try-set", format!("try_set {} = {val:?}: fits {w}, result {r:?}", f.name)),
        }
        let now = e.from_dyn(&d);
        ensure!(now == st, "side-effect", "message after try_set differs: {}", diff(&m, &st, &now));
        let b = no_panic("encode", || d.encode_to_vec())?;
        let back = wire::dec(&m, mid, &b);
        ensure!(matches!(&back, Ok(x) if *x == st), "encode", "encoding after set denotes another message");
    }
    // map key conversions
    let ty = *c.s.pick(&SCALARS);
    let x = gen_scalar(&mut c.s, &m, ty, &VCfg::default());
    let k = e.to_val(&x).into_map_key();
    ensure!(k == x.to_key().map(|k| k.to_dyn()), "map-key", "into_map_key({x:?}) = {k:?}");
    if let Some(k) = k {
        let v: Value = k.clone().into();
        ensure!(e.from_val(&v) == x, "map-key", "MapKey -> Value changes {x:?}");
        let zero = x.to_key().map(|k| match k {
            RKey::Bool(b) => !b,
            RKey::I32(v) => v == 0,
            RKey::I64(v) => v == 0,
            RKey::U32(v) => v == 0,
            RKey::U64(v) => v == 0,
            RKey::Str(s) => s.is_empty(),
        });
        let kind = match k {
            MapKey::Bool(_) => prost_reflect::Kind::Bool,
            MapKey::I32(_) => prost_reflect::Kind::Sint32,
            MapKey::I64(_) => prost_reflect::Kind::Sfixed64,
            MapKey::U32(_) => prost_reflect::Kind::Fixed32,
            MapKey::U64(_) => prost_reflect::Kind::Uint64,
            MapKey::String(_) => prost_reflect::Kind::String,
        };
        ensure!(Some(k.is_default(&kind)) == zero, "map-key", "MapKey::is_default wrong for {k:?}");
    }
    c.nontrivial = acc > 0 && refd > 0;
    c.digest(m.msgs[mid].full_name.as_bytes());
    c.label_if(acc > 0, "accepted");
    c.label_if(refd > 0, "refused");
    Ok(())
}
