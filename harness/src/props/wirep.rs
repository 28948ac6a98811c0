//! C01-C03, C05: the binary format.

use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::src::Src;
use crate::value::*;
use crate::wire;
use prost::Message;
use prost_reflect::DynamicMessage;

pub fn gen_case(s: &mut Src, cfg: &Cfg, vc: &mut VCfg) -> (Model, usize, RMsg) {
    let m = gen_model(s, cfg);
    let mids = user_msgs(&m);
    let mid = *s.pick(&mids);
    let depth = vc.depth;
    let mut v = gen_msg(s, &m, mid, depth, vc);
    stretch(s, &m, &mut v, vc);
    (m, mid, v)
}
pub fn env<'a>(m: &'a Model) -> Result<Env<'a>, Fail> {
    Env::new(m).map_err(|e| Fail { sig: "schema-rejected".into(), msg: e })
}
pub fn describe(m: &Model) -> String {
    let mut o = String::new();
    for (i, f) in m.files.iter().enumerate() {
        if !f.wkt {
            o += &format!("{:?}\n", m.file_proto(i)).replace("None", "-");
        }
    }
    let o = compact(&o);
    o
}
/// Drops unset members from the debug form of descriptors.
fn compact(s: &str) -> String {
    let mut out = s.to_string();
    loop {
        let n = out.len();
        let parts: Vec<&str> = out.split(", ").collect();
        let kept: Vec<&str> = parts.into_iter().filter(|p| !(p.ends_with(": -") || p.ends_with(": []"))).collect();
        out = kept.join(", ");
        if out.len() == n {
            return out;
        }
    }
}
pub fn classify(c: &mut Ctx, m: &Model, r: &RMsg) {
    let mut seen: std::collections::BTreeSet<&'static str> = Default::default();
    fn walk(m: &Model, r: &RMsg, d: u32, seen: &mut std::collections::BTreeSet<&'static str>) {
        if d >= 2 {
            seen.insert("nested>=2");
        }
        if !r.unk.is_empty() {
            seen.insert("unknown");
        }
        seen.insert(if m.is_proto3(r.mid) { "proto3" } else { "proto2" });
        for (n, v) in &r.f {
            let fr = m.field(r.mid, *n).unwrap();
            let f = fr.def();
            if matches!(fr, FRef::X(_)) {
                seen.insert("extension");
            }
            if matches!(f.ty, Ty::Group(_)) {
                seen.insert("group");
            }
            if f.oneof.is_some() {
                seen.insert("oneof");
            }
            if m.is_packed(r.mid, fr) {
                seen.insert("packed");
            }
            if f.default.is_some() {
                seen.insert("custom-default");
            }
            match v {
                RVal::Msg(x) => walk(m, x, d + 1, seen),
                RVal::List(l) => {
                    seen.insert("list");
                    for v in l {
                        if let RVal::Msg(x) = v {
                            seen.insert("list-of-messages");
                            walk(m, x, d + 1, seen)
                        }
                    }
                }
                RVal::Map(l) => {
                    seen.insert("map");
                    for v in l.values() {
                        if let RVal::Msg(x) = v {
                            walk(m, x, d + 1, seen)
                        }
                    }
                }
                RVal::Enum(_) => {
                    seen.insert("enum");
                }
                _ => {}
            }
        }
    }
    walk(m, r, 0, &mut seen);
    for l in seen {
        c.label(l);
    }
}

pub const C01: Prop = Prop {
    id: "C01",
    run: c01,
    quick: 450_000,
    thorough: 12_000_000,
    rule: "case = generated schema (1-2 files) + generated message built through the reflection setters; non-trivial = at least 2 populated fields (leaves counted recursively); distinct = hash of schema and canonical bytes",
};
fn c01(c: &mut Ctx) -> R {
    let mut vc = VCfg { unk: c.s.chance(1, 4), ..Default::default() };
    let (m, mid, v) = gen_case(&mut c.s, &Cfg::default(), &mut vc);
    let e = env(&m)?;
    c.note(|| format!("schema: {}\nmessage: {v:?}", describe(&m)));
    classify(c, &m, &v);
    c.nontrivial = weight(&v) >= 2;
    let mut d = e.to_dyn(&v);
    touch(&mut d, &mut c.s, true);
    // what the reflection API reads back is what was put in
    let back = e.from_dyn(&d);
    ensure!(back == v, "build", "message read back differs: {}", diff(&m, &v, &back));
    let bytes = d.encode_to_vec();
    c.digest(&bytes);
    c.digest(m.msgs[mid].full_name.as_bytes());
    ensure!(d.encoded_len() == bytes.len(), "encoded_len", "encoded_len {} but {} bytes written", d.encoded_len(), bytes.len());
    // the bytes mean the message
    let r = wire::dec(&m, mid, &bytes);
    match r {
        Err(x) => return fail("bytes-invalid", format!("encoder output is not a valid encoding: {x}; {bytes:02x?}")),
        Ok(r) => ensure!(r == v, "bytes-wrong", "encoder output denotes another message: {}", diff(&m, &v, &r)),
    }
    // decode gives the same message
    let d2 = match DynamicMessage::decode(e.msgs[mid].clone(), c.s.split(&bytes)) {
        Ok(x) => x,
        Err(x) => return fail("decode-error", format!("own encoding rejected: {x}; {bytes:02x?}")),
    };
    let r2 = e.from_dyn(&d2);
    ensure!(r2 == v, "roundtrip", "decoded message differs: {}", diff(&m, &v, &r2));
    if !has_map(&v) {
        let b2 = d2.encode_to_vec();
        ensure!(b2 == bytes, "reencode", "re-encoding differs: {bytes:02x?} vs {b2:02x?}");
    } else {
        ensure!(d2.encoded_len() == bytes.len(), "encoded_len2", "encoded_len after decode {} vs {}", d2.encoded_len(), bytes.len());
    }
    // framing
    let mut ld = vec![];
    d.encode_length_delimited(&mut ld).map_err(|x| Fail { sig: "ld".into(), msg: x.to_string() })?;
    let mut want = vec![];
    wire::put_varint(&mut want, bytes.len() as u64);
    ensure!(ld.len() == want.len() + bytes.len() && ld.starts_with(&want), "ld", "length-delimited framing is wrong: {ld:02x?}");
    // a buffer that is exactly large enough suffices; a smaller one is refused
    let mut small = vec![0u8; bytes.len()];
    let mut sl = &mut small[..];
    ensure!(d.encode(&mut sl).is_ok(), "encode-exact", "encode into an exactly sized buffer failed");
    // chunked input
    if bytes.len() > 1 {
        let cut = 1 + c.s.us(bytes.len() - 1);
        let buf = prost::bytes::Buf::chain(&bytes[..cut], c.s.split(&bytes[cut..]));
        let d3 = match DynamicMessage::decode(e.msgs[mid].clone(), buf) {
            Ok(x) => x,
            Err(x) => return fail("decode-chunked", format!("chunked decode failed: {x}")),
        };
        ensure!(e.from_dyn(&d3) == v, "decode-chunked", "chunked decode differs");
    }
    Ok(())
}
pub fn has_map(r: &RMsg) -> bool {
    r.f.values().any(|v| match v {
        RVal::Map(_) => true,
        RVal::Msg(m) => has_map(m),
        RVal::List(l) => l.iter().any(|v| matches!(v, RVal::Msg(m) if has_map(m))),
        _ => false,
    })
}

pub const C02: Prop = Prop {
    id: "C02",
    run: c02,
    quick: 450_000,
    thorough: 12_000_000,
    rule: "case = generated schema + 1-3 generated messages whose wire records are emitted non-canonically (split, packed/unpacked mixed, overwritten, padded, reordered, interleaved) and decoded in 1-2 pieces; oracle = independent reference decoder; non-trivial = more than 4 records or two messages interleaved; distinct = hash of the bytes",
};
fn c02(c: &mut Ctx) -> R {
    let mut vc = VCfg { unk: c.s.chance(1, 4), ..Default::default() };
    let (m, mid, v) = gen_case(&mut c.s, &Cfg::default(), &mut vc);
    let e = env(&m)?;
    let mut recs = wire::noisy_records(&mut c.s, &m, &v, true);
    let extra = c.s.below(3);
    let first = recs.len();
    for _ in 0..extra {
        let mut vc = VCfg { budget: 30, depth: 3, ..Default::default() };
        let w = gen_msg(&mut c.s, &m, mid, 3, &mut vc);
        recs.extend(wire::noisy_records(&mut c.s, &m, &w, true));
    }
    c.label_if(recs.len() > first, "merged-messages");
    if c.s.flip() {
        c.s.shuffle(&mut recs);
        c.label("shuffled");
    }
    let bytes = recs.concat();
    c.digest(&bytes);
    c.nontrivial = recs.len() > 4 || (extra > 0 && recs.len() > first);
    classify(c, &m, &v);
    c.note(|| format!("schema: {}\nmessage type: {}\nbytes: {bytes:02x?}", describe(&m), m.msgs[mid].full_name));
    let want = match wire::dec(&m, mid, &bytes) {
        Ok(w) => w,
        Err(x) => panic!("harness: reference decoder rejects its own stream: {x}"),
    };
    let d = match DynamicMessage::decode(e.msgs[mid].clone(), c.s.split(&bytes)) {
        Ok(d) => d,
        Err(x) => return fail("valid-rejected", format!("valid stream rejected: {x}")),
    };
    let got = e.from_dyn(&d);
    ensure!(got == want, "decode", "decoded message differs: {}", diff(&m, &want, &got));
    // decode in pieces split at a record boundary
    let k = c.s.us(recs.len() + 1);
    let (a, b) = (recs[..k].concat(), recs[k..].concat());
    let mut d2 = match DynamicMessage::decode(e.msgs[mid].clone(), c.s.split(&a)) {
        Ok(d) => d,
        Err(x) => return fail("valid-rejected", format!("valid prefix rejected: {x}")),
    };
    if let Err(x) = d2.merge(c.s.split(&b)) {
        return fail("merge-rejected", format!("merge of a valid stream rejected: {x}"));
    }
    let got2 = e.from_dyn(&d2);
    ensure!(got2 == want, "merge", "merge of two pieces differs from the whole: {}", diff(&m, &want, &got2));
    // length-delimited entry points
    let mut ld = vec![];
    wire::put_len(&mut ld, &bytes);
    ld.extend([0x55, 0xaa]);
    let mut buf = &ld[..];
    let mut d3 = DynamicMessage::new(e.msgs[mid].clone());
    if let Err(x) = d3.merge_length_delimited(&mut buf) {
        return fail("ld-rejected", format!("length-delimited merge rejected: {x}"));
    }
    ensure!(buf == [0x55, 0xaa], "ld-consumed", "length-delimited merge consumed {} bytes too many or few", buf.len());
    ensure!(e.from_dyn(&d3) == want, "ld", "length-delimited merge differs");
    Ok(())
}

pub const C03: Prop = Prop {
    id: "C03",
    run: c03,
    quick: 350_000,
    thorough: 9_000_000,
    rule: "case = generated schema + a copy of it with random fields (and extensions) removed + message of the full schema encoded non-canonically, passed through the reduced schema; non-trivial = at least one populated field is unknown to the reduced schema; distinct = hash of the bytes",
};
fn c03(c: &mut Ctx) -> R {
    let mut vc = VCfg { unk: c.s.chance(1, 3), ..Default::default() };
    let (m, mid, v) = gen_case(&mut c.s, &Cfg::default(), &mut vc);
    let e = env(&m)?;
    // reduced schema: same types, some fields gone
    let mut old = m.clone();
    let mut removed = 0;
    for md in old.msgs.iter_mut() {
        if md.map_entry {
            continue;
        }
        let n = md.fields.len();
        let keep: Vec<bool> = md.fields.iter().map(|_| !c.s.chance(2, 5)).collect();
        let mut it = keep.iter();
        md.fields.retain(|_| *it.next().unwrap());
        removed += n - md.fields.len();
        // drop emptied oneofs and renumber
        let used: Vec<usize> = (0..md.oneofs.len()).filter(|o| md.fields.iter().any(|f| f.oneof == Some(*o))).collect();
        md.oneofs = used.iter().map(|&o| md.oneofs[o].clone()).collect();
        for f in &mut md.fields {
            if let Some(o) = f.oneof {
                f.oneof = used.iter().position(|&u| u == o);
            }
        }
    }
    if c.s.chance(1, 3) {
        for f in &mut old.files {
            f.exts.clear();
        }
        for f in &mut old.msgs {
            f.exts.clear();
        }
        removed += old.exts.len();
        old.exts.clear();
    }
    let eo = env(&old)?;
    let noise = c.s.flip();
    let bytes = wire::noisy(&mut c.s, &m, &v, noise);
    c.digest(&bytes);
    c.note(|| format!("full schema: {}\nold schema: {}\nmessage: {v:?}\nbytes: {bytes:02x?}", describe(&m), describe(&old)));
    let want = wire::dec(&m, mid, &bytes).expect("harness: ref decode");
    let want_old = wire::dec(&old, mid, &bytes).expect("harness: ref decode old");
    classify(c, &m, &want);
    c.label_if(removed > 0, "fields-removed");
    c.nontrivial = has_unknown(&want_old);
    let d = match DynamicMessage::decode(eo.msgs[mid].clone(), c.s.split(&bytes)) {
        Ok(d) => d,
        Err(x) => return fail("old-rejected", format!("old schema rejects the stream: {x}")),
    };
    let got_old = eo.from_dyn(&d);
    ensure!(got_old == want_old, "old-view", "old reader sees: {}", diff(&old, &want_old, &got_old));
    // order within one number, total count
    let nums: Vec<u32> = d.unknown_fields().map(|u| u.number()).collect();
    ensure!(nums.len() == want_old.unk.len(), "unknown-count", "unknown_fields yields {} entries, expected {}", nums.len(), want_old.unk.len());
    for u in d.unknown_fields() {
        let mut b = vec![];
        u.encode(&mut b);
        ensure!(b.len() == u.encoded_len(), "unknown-len", "unknown encoded_len {} vs {}", u.encoded_len(), b.len());
        let mut r = &b[..];
        let back = prost_reflect::UnknownField::decode(&mut r, Default::default());
        ensure!(matches!(&back, Ok(x) if x == u) && r.is_empty(), "unknown-codec", "UnknownField does not round trip: {u:?} {back:?}");
        let (n, w) = wire::Rd::new(&b).key().unwrap();
        ensure!(n == u.number() && w == u.wire_type() as u8, "unknown-meta", "unknown number/wire type wrong: {u:?}");
    }
    let b2 = d.encode_to_vec();
    ensure!(d.encoded_len() == b2.len(), "encoded_len", "encoded_len {} vs {}", d.encoded_len(), b2.len());
    // map order is unspecified, so compare through the reference decoder
    match wire::dec(&m, mid, &b2) {
        Err(x) => return fail("reencoded-invalid", format!("re-encoded bytes are invalid: {x}")),
        Ok(w) => {
            // at most one member of each oneof is on the wire, so nothing may change
            ensure!(w == want, "lost", "full reader after pass-through sees: {}", diff(&m, &want, &w));
        }
    }
    let d3 = DynamicMessage::decode(e.msgs[mid].clone(), c.s.split(&b2));
    ensure!(d3.is_ok(), "full-rejected", "full schema rejects re-encoded bytes: {:?}", d3.err());
    // taking unknown fields removes exactly them
    let mut d4 = d.clone();
    let taken: Vec<_> = d4.take_unknown_fields().collect();
    ensure!(taken.len() == nums.len(), "take-count", "take_unknown_fields yields {} of {}", taken.len(), nums.len());
    let all: Vec<_> = d.unknown_fields().cloned().collect();
    ensure!(taken == all, "take", "take_unknown_fields yields different fields");
    ensure!(d4.unknown_fields().next().is_none(), "take-left", "unknown fields remain after take");
    let mut no_unk = got_old.clone();
    no_unk.unk.clear();
    let after = eo.from_dyn(&d4);
    ensure!(after == no_unk, "take-known", "taking unknown fields changed known ones: {}", diff(&old, &no_unk, &after));
    ensure!(eo.from_dyn(&d) == got_old, "take-clone", "taking from a clone changed the original");
    // an unknown number used again after take still works
    if d4.merge(c.s.split(&bytes)).is_err() {
        return fail("take-merge", "merging after take fails");
    }
    ensure!(eo.from_dyn(&d4).unk.len() == want_old.unk.len(), "take-merge", "unknown fields lost when merging after take");
    let mut d5 = d.clone();
    d5.clear();
    ensure!(d5.encoded_len() == 0 && d5.unknown_fields().next().is_none(), "clear", "clear leaves data behind");
    Ok(())
}

pub const C05: Prop = Prop {
    id: "C05",
    run: c05,
    quick: 700_000,
    thorough: 20_000_000,
    rule: "case = generated schema + byte string (mutated valid encoding, token soup over the schema's field numbers, random bytes, or deep nesting); oracle = no panic, accept/reject agreement with the reference decoder, and re-encoding fixpoint when accepted; non-trivial = the reference decoder got past the first record; distinct = hash of the bytes",
};
pub fn mutate(s: &mut Src, mut b: Vec<u8>) -> Vec<u8> {
    let n = 1 + s.below(3);
    for _ in 0..n {
        if b.is_empty() {
            b.push(s.below(256) as u8);
            continue;
        }
        match s.below(7) {
            0 => {
                let k = s.us(b.len());
                b.truncate(k);
            }
            1 => {
                let k = s.us(b.len());
                b[k] = s.below(256) as u8;
            }
            2 => {
                let k = s.us(b.len());
                b[k] ^= 1 << s.below(8);
            }
            3 => {
                let k = s.us(b.len() + 1);
                b.insert(k, s.below(256) as u8);
            }
            4 => {
                let k = s.us(b.len());
                b.remove(k);
            }
            5 => {
                let i = s.us(b.len());
                let j = i + s.us(b.len() - i + 1).min(12);
                let sl = b[i..j].to_vec();
                let k = s.us(b.len() + 1);
                b.splice(k..k, sl);
            }
            _ => {
                let k = s.us(b.len());
                let v = *s.pick(&[0x00u8, 0xff, 0x80, 0x7f, 0x0b, 0x0c, 0x04]);
                b[k] = v;
            }
        }
    }
    b
}
fn token_soup(s: &mut Src, m: &Model, mid: usize, depth: u32) -> Vec<u8> {
    let mut o = vec![];
    let n = 1 + s.below(5);
    let md = &m.msgs[mid];
    let mut nums: Vec<(u32, Ty, bool)> = md.fields.iter().map(|f| (f.number, f.ty, f.card == Card::Repeated)).collect();
    nums.extend(m.exts.iter().filter(|x| x.extendee == mid).map(|x| (x.f.number, x.f.ty, x.f.card == Card::Repeated)));
    for _ in 0..n {
        let (num, ty, rep) = if nums.is_empty() || s.chance(1, 6) {
            (*s.pick(&[0u32, 1, 2, 77, 19000, 536_870_911]), Ty::Int32, false)
        } else {
            *s.pick(&nums)
        };
        let wt = if s.chance(1, 5) {
            s.below(8) as u8
        } else if rep && ty.packable() && s.flip() {
            2
        } else {
            ty.wire()
        };
        wire::put_key(&mut o, num, wt);
        match wt {
            0 => {
                let v = s.u64v();
                let pad = if s.chance(1, 6) { s.us(10) } else { 0 };
                wire::put_varint_padded(&mut o, v, pad);
            }
            1 => o.extend(s.bits().to_le_bytes()),
            5 => o.extend((s.bits() as u32).to_le_bytes()),
            2 => {
                let body = match ty.msg() {
                    Some(sub) if depth > 0 => token_soup(s, m, sub, depth - 1),
                    _ => s.bytes(),
                };
                let len = match s.weighted(&[12, 1, 1, 1]) {
                    0 => body.len() as u64,
                    1 => body.len() as u64 + 1,
                    2 => s.u64v(),
                    _ => body.len().saturating_sub(1) as u64,
                };
                wire::put_varint(&mut o, len);
                o.extend(body);
            }
            3 => {
                if depth > 0 {
                    let sub = ty.msg().unwrap_or(mid);
                    o.extend(token_soup(s, m, sub, depth - 1));
                }
                if !s.chance(1, 6) {
                    let n2 = if s.chance(1, 8) { num + 1 } else { num };
                    wire::put_key(&mut o, n2, 4);
                }
            }
            _ => {}
        }
    }
    o
}
fn unsign_msg(r: &mut RMsg) {
    for v in r.f.values_mut() {
        unsign_val(v);
    }
}
pub fn unsign_val(v: &mut RVal) {
    match v {
        RVal::F32(x) if *x == 0.0 => *x = 0.0,
        RVal::F64(x) if *x == 0.0 => *x = 0.0,
        RVal::Msg(m) => unsign_msg(m),
        RVal::List(l) => l.iter_mut().for_each(unsign_val),
        RVal::Map(l) => l.values_mut().for_each(unsign_val),
        _ => {}
    }
}
fn c05(c: &mut Ctx) -> R {
    let cfg = Cfg { max_msgs: 3, max_fields: 5, ..Default::default() };
    let m = gen_model(&mut c.s, &cfg);
    let mids = user_msgs(&m);
    let mid = *c.s.pick(&mids);
    let e = env(&m)?;
    let mut deep = false;
    let kind = c.s.weighted(&[40, 40, 10, 1]);
    let bytes = match kind {
        0 => {
            c.label("mutated");
            let mut vc = VCfg { unk: c.s.flip(), budget: 30, ..Default::default() };
            let v = gen_msg(&mut c.s, &m, mid, 3, &mut vc);
            let b = wire::noisy(&mut c.s, &m, &v, true);
            mutate(&mut c.s, b)
        }
        1 => {
            c.label("soup");
            token_soup(&mut c.s, &m, mid, 3)
        }
        2 => {
            c.label("random");
            let n = c.s.below(40);
            (0..n).map(|_| c.s.below(256) as u8).collect()
        }
        _ => {
            c.label("deep");
            deep = true;
            let n = *c.s.pick(&[50usize, 99, 100, 101, 102, 1000, 100_000]);
            let f = m.msgs[mid].fields.iter().find(|f| f.ty.msg() == Some(mid) && !m.is_map(f)).map(|f| (f.number, matches!(f.ty, Ty::Group(_))));
            let mut o = vec![];
            match f {
                Some((num, false)) if c.s.flip() => {
                    for _ in 0..n {
                        let mut t = vec![];
                        wire::put_key(&mut t, num, 2);
                        wire::put_len(&mut t, &o);
                        o = t;
                        if o.len() > 200_000 {
                            break;
                        }
                    }
                }
                _ => {
                    let num = free_number(&mut c.s, &m, mid);
                    for _ in 0..n {
                        wire::put_key(&mut o, num, 3);
                    }
                    for _ in 0..n {
                        wire::put_key(&mut o, num, 4);
                    }
                }
            }
            o
        }
    };
    c.digest(&bytes);
    c.note(|| format!("schema: {}\nmessage type: {}\nbytes: {:02x?}", describe(&m), m.msgs[mid].full_name, &bytes[..bytes.len().min(200)]));
    let want = wire::dec(&m, mid, &bytes);
    let mut rd = wire::Rd::new(&bytes);
    c.nontrivial = bytes.len() > 2 && rd.key().is_ok();
    let got = no_panic("decode", || DynamicMessage::decode(e.msgs[mid].clone(), c.s.split(&bytes)))?;
    // merging into a non-empty message must not panic either
    {
        let mut vc = VCfg { budget: 10, ..Default::default() };
        let v = gen_msg(&mut c.s, &m, mid, 2, &mut vc);
        let mut d = e.to_dyn(&v);
        let _ = no_panic("merge", || d.merge(c.s.split(&bytes)).is_ok())?;
        let back = no_panic("encode-after-failed-merge", || d.encode_to_vec())?;
        ensure!(d.encoded_len() == back.len(), "len-after-merge", "encoded_len wrong after merge");
    }
    match (&want, &got) {
        (Ok(w), Ok(d)) => {
            c.label("accepted");
            let g = e.from_dyn(d);
            ensure!(g == *w, "decode", "decoded message differs: {}", diff(&m, w, &g));
        }
        (Err(x), Err(_)) => c.label(if x.contains("deep") { "too-deep" } else { "rejected" }),
        (Ok(_), Err(x)) => {
            if !deep {
                return fail("valid-rejected", format!("valid stream rejected: {x}"));
            }
        }
        (Err(x), Ok(_)) => {
            if !x.contains("deep") {
                return fail("invalid-accepted", format!("invalid stream accepted ({x})"));
            }
        }
    }
    if let Ok(d) = got {
        let b2 = no_panic("encode", || d.encode_to_vec())?;
        ensure!(d.encoded_len() == b2.len(), "encoded_len", "encoded_len {} vs {}", d.encoded_len(), b2.len());
        let d2 = match no_panic("decode2", || DynamicMessage::decode(e.msgs[mid].clone(), c.s.split(&b2)))? {
            Ok(d) => d,
            Err(x) => return fail("reencoded-rejected", format!("re-encoded bytes rejected: {x}")),
        };
        let (mut a, mut b) = (e.from_dyn(&d), e.from_dyn(&d2));
        unsign_msg(&mut a);
        unsign_msg(&mut b);
        wire::normalize(&m, &mut a);
        wire::normalize(&m, &mut b);
        ensure!(a == b, "fixpoint", "re-encoding changes the message: {}", diff(&m, &a, &b));
    }
    Ok(())
}
