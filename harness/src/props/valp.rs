//! C27: values, map keys and kinds say what they are.

use super::reflectp::fits;
use super::textp::content;
use super::wirep::{classify, describe, env};
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::src::Src;
use crate::value::*;
use prost::encoding::WireType;
use prost_reflect::{DynamicMessage, Kind, MapKey, SetFieldError, Value};
use std::collections::{BTreeMap, HashMap};

pub const C27: Prop = Prop {
    id: "C27",
    run: c27,
    quick: 350_000,
    thorough: 8_000_000,
    rule: "case = generated schema and message; its values, elements, map keys and further scalars, each against accessors, mutable accessors, validity and default predicates of every kind, map-key conversions and the text it prints as; oracle = the reference value and model; non-trivial = the message has at least 2 fields set, of at least 2 variants; distinct = hash of type and values",
};
fn variant(v: &RVal) -> usize {
    match v {
        RVal::Bool(_) => 0,
        RVal::I32(_) => 1,
        RVal::I64(_) => 2,
        RVal::U32(_) => 3,
        RVal::U64(_) => 4,
        RVal::F32(_) => 5,
        RVal::F64(_) => 6,
        RVal::Str(_) => 7,
        RVal::Bytes(_) => 8,
        RVal::Enum(_) => 9,
        RVal::Msg(_) => 10,
        RVal::List(_) => 11,
        RVal::Map(_) => 12,
    }
}
fn ty_variant(t: Ty) -> usize {
    match t {
        Ty::Bool => 0,
        Ty::Int32 | Ty::Sint32 | Ty::Sfixed32 => 1,
        Ty::Int64 | Ty::Sint64 | Ty::Sfixed64 => 2,
        Ty::Uint32 | Ty::Fixed32 => 3,
        Ty::Uint64 | Ty::Fixed64 => 4,
        Ty::Float => 5,
        Ty::Double => 6,
        Ty::String => 7,
        Ty::Bytes => 8,
        Ty::Enum(_) => 9,
        Ty::Message(_) | Ty::Group(_) => 10,
    }
}
pub fn kind_of(e: &Env, t: Ty) -> Kind {
    match t {
        Ty::Double => Kind::Double,
        Ty::Float => Kind::Float,
        Ty::Int32 => Kind::Int32,
        Ty::Int64 => Kind::Int64,
        Ty::Uint32 => Kind::Uint32,
        Ty::Uint64 => Kind::Uint64,
        Ty::Sint32 => Kind::Sint32,
        Ty::Sint64 => Kind::Sint64,
        Ty::Fixed32 => Kind::Fixed32,
        Ty::Fixed64 => Kind::Fixed64,
        Ty::Sfixed32 => Kind::Sfixed32,
        Ty::Sfixed64 => Kind::Sfixed64,
        Ty::Bool => Kind::Bool,
        Ty::String => Kind::String,
        Ty::Bytes => Kind::Bytes,
        Ty::Enum(x) => Kind::Enum(e.pool.get_enum_by_name(&e.m.enums[x].full_name).expect("enum")),
        Ty::Message(x) | Ty::Group(x) => Kind::Message(e.msgs[x].clone()),
    }
}
/// What each accessor gives, as (number of the variant, the value again).
fn read_all(e: &Env, v: &Value) -> Vec<(usize, RVal)> {
    let mut o = vec![];
    let mut p = |i, x: Option<RVal>| o.extend(x.map(|x| (i, x)));
    p(0, v.as_bool().map(RVal::Bool));
    p(1, v.as_i32().map(RVal::I32));
    p(2, v.as_i64().map(RVal::I64));
    p(3, v.as_u32().map(RVal::U32));
    p(4, v.as_u64().map(RVal::U64));
    p(5, v.as_f32().map(RVal::F32));
    p(6, v.as_f64().map(RVal::F64));
    p(7, v.as_str().map(|x| RVal::Str(x.into())));
    p(8, v.as_bytes().map(|x| RVal::Bytes(x.to_vec())));
    p(9, v.as_enum_number().map(RVal::Enum));
    p(10, v.as_message().map(|x| RVal::Msg(e.from_dyn(x))));
    p(11, v.as_list().map(|x| RVal::List(x.iter().map(|y| e.from_val(y)).collect())));
    p(12, v.as_map().map(|x| e.from_val(&Value::Map(x.clone()))));
    o
}
/// Replaces the content through every mutable accessor that gives one.
fn write_all(v: &mut Value, new: &Value) -> Vec<usize> {
    let mut o = vec![];
    macro_rules! w {
        ($i:expr, $acc:ident, $var:path) => {
            if let Some(x) = v.$acc() {
                o.push($i);
                if let $var(n) = new {
                    *x = n.clone();
                }
            }
        };
    }
    w!(0, as_bool_mut, Value::Bool);
    w!(1, as_i32_mut, Value::I32);
    w!(2, as_i64_mut, Value::I64);
    w!(3, as_u32_mut, Value::U32);
    w!(4, as_u64_mut, Value::U64);
    w!(5, as_f32_mut, Value::F32);
    w!(6, as_f64_mut, Value::F64);
    w!(7, as_string_mut, Value::String);
    w!(8, as_bytes_mut, Value::Bytes);
    w!(9, as_enum_number_mut, Value::EnumNumber);
    w!(10, as_message_mut, Value::Message);
    w!(11, as_list_mut, Value::List);
    w!(12, as_map_mut, Value::Map);
    o
}
fn key_read_all(k: &MapKey) -> Vec<RKey> {
    let mut o = vec![];
    o.extend(k.as_bool().map(RKey::Bool));
    o.extend(k.as_i32().map(RKey::I32));
    o.extend(k.as_i64().map(RKey::I64));
    o.extend(k.as_u32().map(RKey::U32));
    o.extend(k.as_u64().map(RKey::U64));
    o.extend(k.as_str().map(|x| RKey::Str(x.into())));
    o
}
fn key_write_all(k: &mut MapKey, new: &RKey) -> usize {
    let mut o = 0;
    macro_rules! w {
        ($acc:ident, $var:path) => {
            if let Some(x) = k.$acc() {
                o += 1;
                if let $var(n) = new {
                    *x = n.clone();
                }
            }
        };
    }
    w!(as_bool_mut, RKey::Bool);
    w!(as_i32_mut, RKey::I32);
    w!(as_i64_mut, RKey::I64);
    w!(as_u32_mut, RKey::U32);
    w!(as_u64_mut, RKey::U64);
    w!(as_string_mut, RKey::Str);
    o
}
fn zero_key(k: &RKey) -> bool {
    match k {
        RKey::Bool(b) => !*b,
        RKey::I32(v) => *v == 0,
        RKey::I64(v) => *v == 0,
        RKey::U32(v) => *v == 0,
        RKey::U64(v) => *v == 0,
        RKey::Str(s) => s.is_empty(),
    }
}
/// A value of the same variant, whatever else.
fn fresh(s: &mut Src, m: &Model, v: &RVal, mid: usize) -> RVal {
    let vc = VCfg { budget: 4, ..Default::default() };
    match variant(v) {
        10 => RVal::Msg(RMsg::new(mid)),
        11 => RVal::List((0..s.below(3)).map(|_| gen_scalar(s, m, Ty::Int32, &vc)).collect()),
        12 => RVal::Map(BTreeMap::from([(gen_scalar(s, m, Ty::String, &vc).to_key().unwrap(), gen_scalar(s, m, Ty::Bytes, &vc))])),
        9 => RVal::Enum(s.i32v()),
        i => {
            let ty = SCALARS.into_iter().find(|t| ty_variant(*t) == i).expect("harness: scalar");
            gen_scalar(s, m, ty, &vc)
        }
    }
}
/// Zero of a value's type, where equality of the library's values is exact (no NaN, no -0.0).
fn plain_float(v: &RVal) -> bool {
    match v {
        RVal::F32(x) => !x.is_nan() && !(*x == 0.0 && x.is_sign_negative()),
        RVal::F64(x) => !x.is_nan() && !(*x == 0.0 && x.is_sign_negative()),
        _ => true,
    }
}
fn c27(c: &mut Ctx) -> R {
    let cfg = Cfg { wkt: c.s.chance(1, 4), max_msgs: 3, max_fields: 6, ..Default::default() };
    let m = gen_model(&mut c.s, &cfg);
    let us = user_msgs(&m);
    let mid = *c.s.pick(&us);
    let mut vc = VCfg { budget: 20, ..Default::default() };
    let v = gen_msg(&mut c.s, &m, mid, 3, &mut vc);
    let e = env(&m)?;
    c.note(|| format!("schema: {}\nmessage type: {}\nvalue: {v:?}", describe(&m), m.msgs[mid].full_name));
    c.digest(format!("{}{v:?}", m.msgs[mid].full_name).as_bytes());
    classify(c, &m, &v);

    // the values to look at: those of the message, some of their elements, and scalars
    let mut vals: Vec<RVal> = vec![RVal::Msg(v.clone())];
    for x in v.f.values() {
        vals.push(x.clone());
        match x {
            RVal::List(l) if !l.is_empty() => vals.push(c.s.pick(l).clone()),
            RVal::Map(p) if !p.is_empty() => {
                let i = c.s.us(p.len());
                let (k, y) = p.iter().nth(i).unwrap();
                vals.push(k.to_val());
                vals.push(y.clone());
            }
            _ => {}
        }
    }
    for _ in 0..3 {
        let t = *c.s.pick(&SCALARS);
        vals.push(gen_scalar(&mut c.s, &m, t, &VCfg::default()));
    }
    let mut kinds: Vec<Ty> = SCALARS.to_vec();
    kinds.push(Ty::Message(mid));
    kinds.extend((0..m.enums.len()).take(2).map(Ty::Enum));
    if let Some(other) = us.iter().find(|x| **x != mid) {
        kinds.push(Ty::Message(*other));
    }
    for x in &vals {
        let dv = e.to_val(x);
        let i = variant(x);
        // shared accessors
        let got = read_all(&e, &dv);
        ensure!(got.len() == 1 && got[0].0 == i && got[0].1 == *x, "accessor", "accessors of {x:?} give {got:?}");
        // mutable ones
        let n = fresh(&mut c.s, &m, x, mid);
        let dn = e.to_val(&n);
        let mut w = dv.clone();
        let hit = write_all(&mut w, &dn);
        ensure!(hit == [i], "accessor-mut", "mutable accessors of {x:?} that give something: {hit:?}");
        ensure!(e.from_val(&w) == n, "accessor-mut", "{x:?} set to {n:?} through its mutable accessor is {:?}", e.from_val(&w));
        ensure!(e.from_val(&dv) == *x, "accessor-mut", "the value the copy was made of changed");
        // equality follows content (kinds of numbers are told apart)
        if plain_float(x) && plain_float(&n) && i < 10 {
            ensure!((dv == w) == (*x == n), "eq", "({x:?} == {n:?}) is {}", dv == w);
        }
        // kinds
        for &t in &kinds {
            let k = kind_of(&e, t);
            let want = ty_variant(t) == i;
            if let (RVal::Msg(a), Ty::Message(b)) = (x, t) {
                if a.mid != b {
                    continue; // left open by the documentation
                }
            }
            ensure!(dv.is_valid(&k) == want, "is-valid", "is_valid({k:?}) of {x:?} is {}", dv.is_valid(&k));
            if plain_float(x) && i < 10 {
                let def = want && *x == m.zero(t);
                ensure!(dv.is_default(&k) == def, "is-default", "is_default({k:?}) of {x:?} is {}", dv.is_default(&k));
            }
        }
        // keys
        let key = dv.clone().into_map_key();
        ensure!(key == x.to_key().map(|k| k.to_dyn()), "map-key", "into_map_key({x:?}) = {key:?}");
        if let (Some(mut k), Some(r)) = (key, x.to_key()) {
            let got = key_read_all(&k);
            ensure!(got == [r.clone()], "key-accessor", "accessors of key {r:?} give {got:?}");
            let back: Value = k.clone().into();
            ensure!(e.from_val(&back) == *x, "map-key", "MapKey -> Value changes {x:?}");
            for &t in &MAP_KEYS {
                let kd = kind_of(&e, t);
                let want = ty_variant(t) == i;
                ensure!(k.is_valid(&kd) == want, "key-valid", "is_valid({kd:?}) of key {r:?} is {}", k.is_valid(&kd));
                ensure!(k.is_default(&kd) == (want && zero_key(&r)), "key-default", "is_default({kd:?}) of key {r:?} is {}", k.is_default(&kd));
                let z = MapKey::default_value(&kd);
                ensure!(z.is_valid(&kd) && Value::from(z.clone()) == Value::default_value(&kd), "key-default", "default key of {kd:?} is {z:?}");
            }
            for t in [Ty::Float, Ty::Double, Ty::Bytes, Ty::Message(mid)] {
                ensure!(!k.is_valid(&kind_of(&e, t)), "key-valid", "key {r:?} is valid for {t:?}");
            }
            let n = fresh(&mut c.s, &m, x, mid).to_key().expect("harness: key");
            let (order, same) = (k.cmp(&n.to_dyn()), r.cmp(&n));
            ensure!(order == same, "key-order", "{r:?} and {n:?} compare {order:?}");
            let hm = HashMap::from([(k.clone(), 1)]);
            ensure!(hm.contains_key(&n.to_dyn()) == (r == n), "key-hash", "{r:?} and {n:?}: found {}", hm.contains_key(&n.to_dyn()));
            let hits = key_write_all(&mut k, &n);
            ensure!(hits == 1 && k == n.to_dyn(), "key-accessor-mut", "key {r:?} set to {n:?} is {k:?} after {hits} writes");
        }
    }
    // kinds by themselves
    for &t in &kinds {
        let k = kind_of(&e, t);
        let z = m.zero(t);
        let dz = Value::default_value(&k);
        ensure!(e.from_val(&dz) == z && e.from_val(&k.default_value()) == z, "kind-default", "default value of {k:?} is {dz:?}");
        ensure!(dz.is_default(&k) && dz.is_valid(&k), "kind-default", "default value of {k:?} is not its default or not valid");
        let w = match t.wire() {
            0 => WireType::Varint,
            1 => WireType::SixtyFourBit,
            5 => WireType::ThirtyTwoBit,
            _ => WireType::LengthDelimited,
        };
        ensure!(k.wire_type() == w, "wire-type", "wire_type of {k:?} is {:?}", k.wire_type());
        let (mm, en) = (k.as_message(), k.as_enum());
        ensure!(mm.map(|x| x.full_name()) == t.msg().map(|x| m.msgs[x].full_name.as_str()), "kind-accessor", "as_message of {k:?}");
        ensure!(en.map(|x| x.full_name()) == if let Ty::Enum(x) = t { Some(m.enums[x].full_name.as_str()) } else { None }, "kind-accessor", "as_enum of {k:?}");
    }
    // fields and extensions: defaults, and values printed by themselves
    let mut frs: Vec<FRef> = m.msgs[mid].fields.iter().map(FRef::F).collect();
    frs.extend(m.exts.iter().filter(|x| x.extendee == mid).map(FRef::X));
    for fr in frs {
        let f = fr.def();
        let def = m.default_of(f);
        let val = v.f.get(&f.number).cloned();
        let mut pool: Vec<RVal> = [Some(def.clone()), val.clone(), vals.last().cloned()].into_iter().flatten().collect();
        // one element or entry of another kind among good ones
        let odd = vals.last().unwrap().clone();
        match val.clone() {
            Some(RVal::List(mut l)) if !l.is_empty() => {
                let i = c.s.us(l.len() + 1);
                l.insert(i, odd);
                pool.push(RVal::List(l));
            }
            Some(RVal::Map(mut p)) if !p.is_empty() => {
                let i = c.s.us(p.len());
                let k = p.keys().nth(i).unwrap().clone();
                match odd.to_key() {
                    Some(o) if c.s.flip() => {
                        let y = p.remove(&k).unwrap();
                        p.insert(o, y);
                    }
                    _ => drop(p.insert(k, odd)),
                }
                pool.push(RVal::Map(p));
            }
            _ => {}
        }
        for x in pool {
            let dv = e.to_val(&x);
            let (d0, isdef, valid) = match fr {
                FRef::F(_) => {
                    let fd = e.msgs[mid].get_field(f.number).expect("field");
                    (Value::default_value_for_field(&fd), dv.is_default_for_field(&fd), dv.is_valid_for_field(&fd))
                }
                FRef::X(q) => {
                    let xd = &e.exts[m.exts.iter().position(|y| y.full_name == q.full_name).unwrap()];
                    (Value::default_value_for_extension(xd), dv.is_default_for_extension(xd), dv.is_valid_for_extension(xd))
                }
            };
            ensure!(e.from_val(&d0) == def, "field-default", "default of {} is {d0:?}", f.name);
            if plain_float(&x) && plain_float(&def) && (variant(&x) < 10 || matches!(&x, RVal::List(l) if l.is_empty()) || matches!(&x, RVal::Map(l) if l.is_empty())) {
                ensure!(isdef == (x == def), "field-is-default", "is_default of {x:?} for {} is {isdef}, its default is {def:?}", f.name);
            }
            if let Some(w) = fits(&m, f, &x) {
                ensure!(valid == w, "is-valid-for", "is_valid of {x:?} for {} is {valid}", f.name);
            }
        }
        let Some(x) = val else { continue };
        let dv = e.to_val(&x);
        let pretty = c.s.flip();
        let t = no_panic("print value", || if pretty { format!("{dv:#}") } else { format!("{dv}") })?;
        let name = match (fr, f.ty) {
            (FRef::X(q), _) => format!("[{}]", q.full_name),
            (_, Ty::Group(g)) => m.msgs[g].full_name.rsplit('.').next().unwrap().to_string(),
            _ => f.name.clone(),
        };
        let t = format!("{name}: {t}");
        let got = match DynamicMessage::parse_text_format(e.msgs[mid].clone(), &t) {
            Ok(d) => e.from_dyn(&d),
            Err(x) => return fail("display", format!("{x}\ntext: {t}")),
        };
        let mut want = RMsg::new(mid);
        want.f.insert(f.number, x);
        let (a, b) = (content(&m, &want), content(&m, &got));
        ensure!(a == b, "display", "value printed by itself and read back: {}\ntext: {t}", diff(&m, &a, &b));
    }
    // the error of a refused assignment can be printed, and carries a text of the value
    if let Some(f) = m.msgs[mid].fields.first() {
        let bad = vals.last().unwrap();
        if fits(&m, f, bad) == Some(false) {
            let mut d = DynamicMessage::new(e.msgs[mid].clone());
            let dv = e.to_val(bad);
            match d.try_set_field_by_number(f.number, dv.clone()) {
                Err(x @ SetFieldError::InvalidType { .. }) => {
                    let t = no_panic("print error", || x.to_string())?;
                    ensure!(t.contains(&dv.to_string()), "set-error", "{t:?} does not show the value {dv}");
                    c.label("set-error");
                }
                r => return fail("set-error", format!("setting {} to {bad:?}: {r:?}", f.name)),
            }
        }
    }
    let mut vs: Vec<usize> = v.f.values().map(variant).collect();
    vs.sort();
    vs.dedup();
    c.nontrivial = v.f.len() >= 2 && vs.len() >= 2;
    Ok(())
}
