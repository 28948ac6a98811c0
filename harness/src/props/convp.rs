//! C24: conversions between the formats.

use super::jsonp::{cut, from_text, to_text};
use super::textp::content;
use super::wirep::{classify, describe, env};
use crate::engine::*;
use crate::ensure;
use crate::json::{doc, text as json_text, JOpts};
use crate::model::*;
use crate::src::Src;
use crate::text::*;
use crate::value::*;
use crate::wire;
use prost::Message;
use prost_reflect::{DeserializeOptions, DescriptorPool, DynamicMessage, MessageDescriptor, ReflectMessage};

pub const C24: Prop = Prop {
    id: "C24",
    run: c24,
    quick: 200_000,
    thorough: 4_000_000,
    rule: "case = generated schema + either a message taken through a chain of 2-6 conversions (binary, JSON, text in random spellings and options, reflective copy, clone, re-encoded pool, prost's types for well-known messages, packing into Any) or a message assembled from 2-4 parts merged by a random mix of binary merge, text merge, transcoding and JSON; oracle = the reference value after every step (for parts, the reference decoder on the concatenated encodings); non-trivial = at least 2 populated values; distinct = hash of type, value and steps",
};

fn binary(s: &mut Src, desc: &MessageDescriptor, b: &[u8]) -> Result<DynamicMessage, String> {
    match s.below(3) {
        0 => DynamicMessage::decode(desc.clone(), b).map_err(|e| e.to_string()),
        1 => {
            let mut d = DynamicMessage::new(desc.clone());
            d.merge(b).map_err(|e| e.to_string())?;
            Ok(d)
        }
        _ => {
            let mut x = vec![];
            wire::put_len(&mut x, b);
            let mut d = DynamicMessage::new(desc.clone());
            d.merge_length_delimited(&x[..]).map_err(|e| e.to_string())?;
            Ok(d)
        }
    }
}
fn text_in(s: &mut Src, desc: &MessageDescriptor, t: &str) -> Result<DynamicMessage, String> {
    if s.flip() {
        DynamicMessage::parse_text_format(desc.clone(), t).map_err(|e| format!("{e}\ntext: {}", cut(t)))
    } else {
        let mut d = DynamicMessage::new(desc.clone());
        d.merge_text_format(t).map_err(|e| format!("{e}\ntext: {}", cut(t)))?;
        Ok(d)
    }
}
fn spelled_text(s: &mut Src, m: &Model, v: &RMsg) -> String {
    let tree = sp_fields(m, v, s);
    let mut ts = vec![];
    flat(&tree, s, &mut ts);
    join(&ts, s).0
}
fn copy(d: &DynamicMessage) -> DynamicMessage {
    let mut x = DynamicMessage::new(d.descriptor());
    for (f, v) in d.fields() {
        x.set_field(&f, v.clone());
    }
    for (f, v) in d.extensions() {
        x.set_extension(&f, v.clone());
    }
    x
}
fn drain(mut d: DynamicMessage) -> DynamicMessage {
    let mut x = DynamicMessage::new(d.descriptor());
    let fs: Vec<_> = d.take_fields().collect();
    for (f, v) in fs {
        x.set_field(&f, v);
    }
    let es: Vec<_> = d.take_extensions().collect();
    for (f, v) in es {
        x.set_extension(&f, v);
    }
    x
}
fn typed(name: &str, d: &DynamicMessage) -> Option<Result<Vec<u8>, String>> {
    fn via<T: Message + Default>(d: &DynamicMessage) -> Result<Vec<u8>, String> {
        let t: T = d.transcode_to().map_err(|e| e.to_string())?;
        let mut x = DynamicMessage::new(d.descriptor());
        x.transcode_from(&t).map_err(|e| e.to_string())?;
        Ok(x.encode_to_vec())
    }
    use prost_types as p;
    Some(match name.strip_prefix("google.protobuf.")? {
        "Any" => via::<p::Any>(d),
        "Timestamp" => via::<p::Timestamp>(d),
        "Duration" => via::<p::Duration>(d),
        "Struct" => via::<p::Struct>(d),
        "Value" => via::<p::Value>(d),
        "ListValue" => via::<p::ListValue>(d),
        "FieldMask" => via::<p::FieldMask>(d),
        "Empty" => via::<()>(d),
        "DoubleValue" => via::<f64>(d),
        "FloatValue" => via::<f32>(d),
        "Int64Value" => via::<i64>(d),
        "UInt64Value" => via::<u64>(d),
        "Int32Value" => via::<i32>(d),
        "UInt32Value" => via::<u32>(d),
        "BoolValue" => via::<bool>(d),
        "StringValue" => via::<String>(d),
        "BytesValue" => via::<Vec<u8>>(d),
        _ => return None,
    })
}

fn c24(c: &mut Ctx) -> R {
    if c.s.chance(2, 3) {
        chain(c)
    } else {
        parts(c)
    }
}
fn gen(c: &mut Ctx, json: bool, n: usize, wkt: bool) -> (Model, usize, Vec<RMsg>) {
    let m = gen_model(&mut c.s, &Cfg { wkt, max_msgs: 3, max_fields: 6, ..Default::default() });
    let us = user_msgs(&m);
    let wk: Vec<usize> = (0..m.msgs.len()).filter(|&i| crate::json::is_wkt(&m.msgs[i].full_name)).collect();
    let mid = if !wk.is_empty() && c.s.chance(1, 6) { *c.s.pick(&wk) } else { *c.s.pick(&us) };
    let vs: Vec<RMsg> = (0..n)
        .map(|_| {
            let mut vc = VCfg { json_safe: json, budget: if n > 1 { 15 } else { 30 }, ..Default::default() };
            let mut v = gen_msg(&mut c.s, &m, mid, 4, &mut vc);
            if n == 1 {
                stretch(&mut c.s, &m, &mut v, &vc);
            }
            v
        })
        .collect();
    c.note(|| format!("schema: {}\nmessage type: {}\nvalues: {vs:?}", describe(&m), m.msgs[mid].full_name));
    c.digest(format!("{}{vs:?}", m.msgs[mid].full_name).as_bytes());
    vs.iter().for_each(|v| classify(c, &m, v));
    c.nontrivial = vs.iter().map(weight).sum::<usize>() >= 2;
    (m, mid, vs)
}

fn chain(c: &mut Ctx) -> R {
    let json = c.s.chance(5, 6);
    let (m, mid, vs) = gen(c, json, 1, true);
    let mut v = vs.into_iter().next().unwrap();
    let e = env(&m)?;
    let start = c.s.below(4);
    let noisy = wire::noisy(&mut c.s, &m, &v, !json); // (noise may leave a well-known type without a JSON form)
    if start == 3 {
        v = wire::dec(&m, mid, &noisy).unwrap_or_else(|x| panic!("harness: reference decoder rejects its own stream: {x}"));
    }
    let want = content(&m, &v);
    let name = m.msgs[mid].full_name.clone();
    let any = m.find_msg("google.protobuf.Any").map(|a| e.msgs[a].clone());
    let pool2 = if c.s.chance(1, 4) {
        let b = e.pool.encode_to_vec();
        match DescriptorPool::decode(&b[..]) {
            Ok(p) => Some(p),
            Err(x) => return fail("pool", format!("re-encoded pool rejected: {x}")),
        }
    } else {
        None
    };
    let e2 = match &pool2 {
        Some(p) => Some(Env::with_pool(&m, p.clone()).map_err(|x| Fail { sig: "pool".into(), msg: x })?),
        None => None,
    };
    // where the chain starts
    let mut d = no_panic("start", || -> Result<DynamicMessage, String> {
        let desc = &e.msgs[mid];
        match start {
            0 => Ok(e.to_dyn(&v)),
            1 if json => {
                let x = doc(&m, &v, &JOpts::spelled(), &mut c.s);
                from_text(desc, &json_text(&x, &mut c.s, true), true)
            }
            2 => {
                let t = spelled_text(&mut c.s, &m, &v);
                text_in(&mut c.s, desc, &t)
            }
            _ => binary(&mut c.s, desc, &if start == 3 { noisy.clone() } else { wire::enc(&m, &v) }),
        }
    })?
    .map_err(|x| Fail { sig: format!("start{start}"), msg: x })?;
    let got = e.from_dyn(&d);
    ensure!(content(&m, &got) == want, &format!("start{start}"), "{}", diff(&m, &want, &content(&m, &got)));
    let steps = 2 + c.s.below(5);
    let mut done: Vec<&'static str> = vec![];
    let mut other = false; // d belongs to the second pool
    for _ in 0..steps {
        let k = c.s.weighted(&[4, if json { 5 } else { 0 }, 5, 2, 1, 1, 2, 2, 2]);
        let env: &Env = if other { e2.as_ref().unwrap() } else { &e };
        let desc = env.msgs[mid].clone();
        let mut swap = false;
        let r = no_panic("step", || -> Result<(&'static str, DynamicMessage), String> {
            let s = &mut c.s;
            Ok(match k {
                0 => ("binary", binary(s, &desc, &d.encode_to_vec())?),
                1 => {
                    let o = JOpts::random(s);
                    let t = to_text(&d, &o, s.flip())?;
                    if s.flip() {
                        ("json", from_text(&desc, &t, true).map_err(|x| format!("{x}\njson: {}", cut(&t)))?)
                    } else {
                        let x: serde_json::Value = serde_json::from_str(&t).map_err(|x| format!("{x}: {}", cut(&t)))?;
                        // (serde_json's own number type does not hold every number exactly)
                        let r = if t.bytes().any(|b| b.is_ascii_digit()) {
                            from_text(&desc, &t, false)?
                        } else {
                            DynamicMessage::deserialize_with_options(desc, x, &DeserializeOptions::new()).map_err(|x| format!("{x}\njson: {}", cut(&t)))?
                        };
                        ("json", r)
                    }
                }
                2 => {
                    let mut o = TOpts::random(s);
                    o.skip_unknown = true;
                    let t = d.to_text_format_with_options(&o.lib());
                    ("text", text_in(s, &desc, &t)?)
                }
                3 => ("copy", copy(&d)),
                4 => ("drain", drain(d.clone())),
                5 => {
                    let mut x = d.clone();
                    std::mem::swap(&mut x, &mut d);
                    d.clear();
                    ("clone", x)
                }
                6 => match typed(&name, &d) {
                    Some(b) => ("typed", binary(s, &desc, &b?)?),
                    None => ("transcode", {
                        let mut x = DynamicMessage::new(desc);
                        x.transcode_from(&d).map_err(|e| e.to_string())?;
                        x
                    }),
                },
                7 => match &e2 {
                    Some(p) => {
                        swap = true;
                        let to = if other { &e } else { p };
                        let mut x = DynamicMessage::new(to.msgs[mid].clone());
                        x.transcode_from(&d).map_err(|e| e.to_string())?;
                        ("pool", x)
                    }
                    None => ("copy", copy(&d)),
                },
                _ => match &any {
                    Some(_) if name != "google.protobuf.Any" => {
                        let ad = env.pool.get_message_by_name("google.protobuf.Any").unwrap();
                        let mut a = DynamicMessage::new(ad.clone());
                        a.set_field_by_name("type_url", prost_reflect::Value::String(format!("type.googleapis.com/{name}")));
                        a.set_field_by_name("value", prost_reflect::Value::Bytes(d.encode_to_vec().into()));
                        let a = if json && s.flip() {
                            let t = to_text(&a, &JOpts::random(s), false)?;
                            from_text(&ad, &t, true).map_err(|x| format!("{x}\njson: {}", cut(&t)))?
                        } else {
                            let mut o = TOpts::random(s);
                            o.skip_unknown = true;
                            let t = a.to_text_format_with_options(&o.lib());
                            text_in(s, &ad, &t)?
                        };
                        let u = a.get_field_by_name("type_url").unwrap().as_str().unwrap_or("").to_string();
                        if u.rsplit('/').next() != Some(&name) {
                            return Err(format!("type url is now {u:?}"));
                        }
                        let b = a.get_field_by_name("value").unwrap().as_bytes().unwrap().clone();
                        ("any", binary(s, &desc, &b)?)
                    }
                    _ => ("copy", copy(&d)),
                },
            })
        })?;
        let (label, x) = match r {
            Ok(x) => x,
            Err(x) => return fail(&format!("step{k}"), format!("after {done:?}: {x}")),
        };
        c.label(label);
        done.push(label);
        other ^= swap;
        d = x;
        let env: &Env = if other { e2.as_ref().unwrap() } else { &e };
        let got = env.from_dyn(&d);
        ensure!(content(&m, &got) == want, label, "after {done:?}: {}", diff(&m, &want, &content(&m, &got)));
    }
    c.digest(done.join(",").as_bytes());
    // what it means in bytes, by the reference decoder
    match wire::dec(&m, mid, &d.encode_to_vec()) {
        Ok(x) => ensure!(content(&m, &x) == want, "final-bytes", "after {done:?}: {}", diff(&m, &want, &content(&m, &x))),
        Err(x) => return fail("final-bytes", format!("after {done:?}: invalid encoding: {x}")),
    }
    Ok(())
}

/// Drops from `p` what would set a singular field (or another member of its oneof) again.
fn disjoint(m: &Model, mid: usize, acc: &RMsg, p: &RMsg) -> RMsg {
    let mut out = RMsg::new(p.mid);
    for (n, v) in &p.f {
        let fr = m.field(mid, *n).unwrap();
        let f = fr.def();
        let taken = !m.is_list(f) && !m.is_map(f) && (acc.f.contains_key(n) || f.oneof.is_some_and(|o| acc.f.keys().any(|k| matches!(m.field(mid, *k), Some(FRef::F(g)) if g.oneof == Some(o)))));
        if !taken {
            out.f.insert(*n, v.clone());
        }
    }
    out
}
fn contains(r: &RMsg, mid: usize) -> bool {
    fn val(v: &RVal, mid: usize) -> bool {
        match v {
            RVal::Msg(x) => contains(x, mid),
            RVal::List(l) => l.iter().any(|x| val(x, mid)),
            RVal::Map(l) => l.values().any(|x| val(x, mid)),
            _ => false,
        }
    }
    r.mid == mid || r.f.values().any(|v| val(v, mid))
}
fn parts(c: &mut Ctx) -> R {
    let n = 2 + c.s.us(3);
    let wkt = c.s.flip();
    let (m, mid, vs) = gen(c, true, n, wkt);
    if crate::json::is_wkt(&m.msgs[mid].full_name) {
        return Ok(()); // a part of a well-known type need not be a value of it
    }
    let any = m.find_msg("google.protobuf.Any");
    if any.is_some_and(|a| vs.iter().any(|v| contains(v, a))) {
        // merging into an Any may pair the bytes of one type with the URL of another
        c.nontrivial = false;
        return Ok(());
    }
    let e = env(&m)?;
    let desc = &e.msgs[mid];
    let mut d = DynamicMessage::new(desc.clone());
    let mut acc = RMsg::new(mid);
    let mut done: Vec<&'static str> = vec![];
    for v in vs {
        let k = c.s.weighted(&[2, 4, 1, 1]);
        let v = if k == 1 { disjoint(&m, mid, &acc, &v) } else { v };
        let label = ["binary", "text", "transcode", "json"][k];
        done.push(label);
        let mut spelled = None;
        let bytes = if k == 0 { wire::noisy(&mut c.s, &m, &v, true) } else { wire::enc(&m, &v) };
        let r = no_panic("merge", || -> Result<(), String> {
            let s = &mut c.s;
            match k {
                0 => d.merge(&bytes[..]).map_err(|e| e.to_string()),
                1 => {
                    // (a default may be spelled out for a field without presence, which sets it a second time)
                    let plain = acc.f.keys().any(|n| {
                        let fr = m.field(mid, *n).unwrap();
                        !m.has_presence(mid, fr) && !m.is_list(fr.def()) && !m.is_map(fr.def())
                    });
                    let t = if !plain && s.flip() {
                        spelled_text(s, &m, &v)
                    } else {
                        let mut o = TOpts::random(s);
                        o.skip_default |= plain;
                        o.skip_unknown = true;
                        e.to_dyn(&v).to_text_format_with_options(&o.lib())
                    };
                    let r = d.merge_text_format(&t).map_err(|e| format!("{e}\ntext: {}", cut(&t)));
                    spelled = Some(t);
                    r
                }
                2 => d.transcode_from(&e.to_dyn(&v)).map_err(|e| e.to_string()),
                _ => {
                    let x = doc(&m, &v, &JOpts::spelled(), s);
                    let x = from_text(desc, &json_text(&x, s, true), true)?;
                    d.transcode_from(&x).map_err(|e| e.to_string())
                }
            }
        })?;
        if let Err(x) = r {
            return fail(&format!("merge-{label}"), format!("after {done:?}: {x}"));
        }
        c.label(&format!("merge-{label}"));
        if let Err(x) = wire::merge(&m, &mut acc, &bytes, 100) {
            panic!("harness: reference merge rejects its own encoding: {x}");
        }
        let got = e.from_dyn(&d);
        ensure!(
            content(&m, &got) == content(&m, &acc),
            &format!("merge-{label}"),
            "after {done:?}{}: {}",
            spelled.map(|t| format!(" (text: {})", cut(&t))).unwrap_or_default(),
            diff(&m, &content(&m, &acc), &content(&m, &got))
        );
    }
    c.digest(done.join(",").as_bytes());
    Ok(())
}
