//! Reference wire codec, written from the protobuf encoding specification.

use crate::model::*;
use crate::src::Src;
use crate::value::*;
use std::collections::BTreeMap;

pub fn put_varint(o: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
/// Non-minimal varint padded with `pad` continuation bytes (at most 10 bytes in total).
pub fn put_varint_padded(o: &mut Vec<u8>, v: u64, pad: usize) {
    let mut t = vec![];
    put_varint(&mut t, v);
    let pad = pad.min(10 - t.len());
    if pad > 0 {
        let l = t.len();
        t[l - 1] |= 0x80;
        for _ in 0..pad - 1 {
            t.push(0x80);
        }
        t.push(0);
    }
    o.extend(t);
}
pub fn put_key(o: &mut Vec<u8>, num: u32, wt: u8) {
    put_varint(o, (num as u64) << 3 | wt as u64);
}
pub fn zz32(v: i32) -> u64 {
    (((v as u32) << 1) ^ ((v >> 31) as u32)) as u64
}
pub fn zz64(v: i64) -> u64 {
    ((v as u64) << 1) ^ ((v >> 63) as u64)
}
pub fn varint_of(ty: Ty, v: &RVal) -> u64 {
    match (ty, v) {
        (Ty::Sint32, RVal::I32(x)) => zz32(*x),
        (Ty::Sint64, RVal::I64(x)) => zz64(*x),
        (_, RVal::I32(x)) => *x as i64 as u64,
        (_, RVal::Enum(x)) => *x as i64 as u64,
        (_, RVal::I64(x)) => *x as u64,
        (_, RVal::U32(x)) => *x as u64,
        (_, RVal::U64(x)) => *x,
        (_, RVal::Bool(x)) => *x as u64,
        _ => panic!("harness: varint_of {ty:?} {v:?}"),
    }
}
/// Payload of a non-length-delimited scalar.
pub fn put_scalar(o: &mut Vec<u8>, ty: Ty, v: &RVal) {
    match (ty.wire(), v) {
        (1, RVal::F64(x)) => o.extend(x.to_le_bytes()),
        (1, RVal::I64(x)) => o.extend(x.to_le_bytes()),
        (1, RVal::U64(x)) => o.extend(x.to_le_bytes()),
        (5, RVal::F32(x)) => o.extend(x.to_le_bytes()),
        (5, RVal::I32(x)) => o.extend(x.to_le_bytes()),
        (5, RVal::U32(x)) => o.extend(x.to_le_bytes()),
        (0, _) => put_varint(o, varint_of(ty, v)),
        _ => panic!("harness: put_scalar {ty:?} {v:?}"),
    }
}
pub fn put_len(o: &mut Vec<u8>, b: &[u8]) {
    put_varint(o, b.len() as u64);
    o.extend_from_slice(b);
}

// ---- canonical encoder --------------------------------------------------------------------

pub fn enc_single(m: &Model, num: u32, ty: Ty, v: &RVal, o: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::Group(_), RVal::Msg(x)) => {
            put_key(o, num, 3);
            o.extend(enc(m, x));
            put_key(o, num, 4);
        }
        (_, RVal::Msg(x)) => {
            put_key(o, num, 2);
            put_len(o, &enc(m, x));
        }
        (_, RVal::Str(x)) => {
            put_key(o, num, 2);
            put_len(o, x.as_bytes());
        }
        (_, RVal::Bytes(x)) => {
            put_key(o, num, 2);
            put_len(o, x);
        }
        _ => {
            put_key(o, num, ty.wire());
            put_scalar(o, ty, v);
        }
    }
}
pub fn enc_field(m: &Model, mid: usize, fr: FRef, v: &RVal, o: &mut Vec<u8>) {
    let f = fr.def();
    match v {
        RVal::Map(x) => {
            let (k, vf) = m.map_kv(f);
            for (kk, vv) in x {
                let mut e = vec![];
                enc_single(m, 1, k.ty, &kk.to_val(), &mut e);
                enc_single(m, 2, vf.ty, vv, &mut e);
                put_key(o, f.number, 2);
                put_len(o, &e);
            }
        }
        RVal::List(x) => {
            if m.is_packed(mid, fr) {
                if !x.is_empty() {
                    let mut e = vec![];
                    for i in x {
                        put_scalar(&mut e, f.ty, i);
                    }
                    put_key(o, f.number, 2);
                    put_len(o, &e);
                }
            } else {
                for i in x {
                    enc_single(m, f.number, f.ty, i, o);
                }
            }
        }
        _ => enc_single(m, f.number, f.ty, v, o),
    }
}
pub fn enc(m: &Model, r: &RMsg) -> Vec<u8> {
    let mut o = vec![];
    for (n, v) in &r.f {
        enc_field(m, r.mid, m.field(r.mid, *n).unwrap(), v, &mut o);
    }
    o.extend(enc_unks(&r.unk));
    o
}
pub fn enc_unks(u: &[(u32, RUnk)]) -> Vec<u8> {
    let mut o = vec![];
    for (n, v) in u {
        enc_unk(*n, v, &mut o);
    }
    o
}
pub fn enc_unk(n: u32, v: &RUnk, o: &mut Vec<u8>) {
    match v {
        RUnk::Varint(x) => {
            put_key(o, n, 0);
            put_varint(o, *x)
        }
        RUnk::F64(x) => {
            put_key(o, n, 1);
            o.extend(x.to_le_bytes())
        }
        RUnk::Len(x) => {
            put_key(o, n, 2);
            put_len(o, x)
        }
        RUnk::Group(x) => {
            put_key(o, n, 3);
            o.extend(enc_unks(x));
            put_key(o, n, 4)
        }
        RUnk::F32(x) => {
            put_key(o, n, 5);
            o.extend(x.to_le_bytes())
        }
    }
}

// ---- noisy encoder: every legal non-canonical way to say something -------------------------

/// One top-level wire record (key + payload).
pub fn noisy_records(s: &mut Src, m: &Model, r: &RMsg, noise: bool) -> Vec<Vec<u8>> {
    let mut recs: Vec<Vec<u8>> = vec![];
    for (n, v) in &r.f {
        let fr = m.field(r.mid, *n).unwrap();
        let f = fr.def();
        match v {
            RVal::Map(x) => {
                let (k, vf) = m.map_kv(f);
                for (kk, vv) in x {
                    let mut kb = vec![];
                    enc_single(m, 1, k.ty, &kk.to_val(), &mut kb);
                    let mut vb = vec![];
                    if let RVal::Msg(vm) = vv {
                        // the value may arrive in pieces, like any submessage
                        let mut inner = noisy_records(s, m, vm, noise);
                        if noise && s.flip() {
                            s.shuffle(&mut inner);
                        }
                        let cut = if noise && s.chance(1, 4) { s.us(inner.len() + 1) } else { inner.len() };
                        for p in if cut < inner.len() { vec![&inner[..cut], &inner[cut..]] } else { vec![&inner[..]] } {
                            put_key(&mut vb, 2, 2);
                            put_len(&mut vb, &p.concat());
                        }
                    } else {
                        if noise && s.chance(1, 8) {
                            // value given twice, last wins
                            let other = gen_scalar(s, m, vf.ty, &VCfg::default());
                            noisy_single(s, m, 2, vf.ty, &other, &mut vb, noise);
                        }
                        noisy_single(s, m, 2, vf.ty, vv, &mut vb, noise);
                    }
                    let e = match if noise { s.below(8) } else { 0 } {
                        1 => [vb, kb].concat(),
                        2 if *kk == key_zero(m, k.ty) => vb,
                        3 if *vv == m.zero(vf.ty) => kb,
                        4 => {
                            // unknown field inside the entry
                            let mut u = vec![];
                            let uk = gen_unk(s, 1);
                            enc_unk(7, &uk, &mut u);
                            [u, kb, vb].concat()
                        }
                        5 => {
                            // key given twice, last wins
                            let other = gen_scalar(s, m, k.ty, &VCfg::default());
                            let mut ob = vec![];
                            enc_single(m, 1, k.ty, &other, &mut ob);
                            [ob, kb, vb].concat()
                        }
                        _ => [kb, vb].concat(),
                    };
                    let mut o = vec![];
                    put_key(&mut o, f.number, 2);
                    put_len(&mut o, &e);
                    recs.push(o);
                }
            }
            RVal::List(x) if f.ty.packable() => {
                let mut i = 0;
                let canonical_packed = m.is_packed(r.mid, fr);
                while i < x.len() {
                    let take = if noise { 1 + s.us(x.len() - i) } else { x.len() };
                    let packed = if noise { s.flip() } else { canonical_packed };
                    if packed {
                        let mut e = vec![];
                        for y in &x[i..i + take] {
                            noisy_payload(s, f.ty, y, &mut e, noise);
                        }
                        let mut o = vec![];
                        put_key(&mut o, f.number, 2);
                        put_len(&mut o, &e);
                        recs.push(o);
                        if noise && s.chance(1, 10) {
                            let mut o = vec![];
                            put_key(&mut o, f.number, 2);
                            put_len(&mut o, &[]);
                            recs.push(o);
                        }
                    } else {
                        for y in &x[i..i + take] {
                            let mut o = vec![];
                            noisy_single(s, m, f.number, f.ty, y, &mut o, noise);
                            recs.push(o);
                        }
                    }
                    i += take;
                }
            }
            RVal::List(x) => {
                for y in x {
                    let mut o = vec![];
                    noisy_single(s, m, f.number, f.ty, y, &mut o, noise);
                    recs.push(o);
                }
            }
            RVal::Msg(x) => {
                // a submessage may arrive in pieces
                let inner = noisy_records(s, m, x, noise);
                let cut = if noise && s.chance(1, 3) { s.us(inner.len() + 1) } else { inner.len() };
                let parts: Vec<&[Vec<u8>]> =
                    if cut < inner.len() { vec![&inner[..cut], &inner[cut..]] } else { vec![&inner[..]] };
                for p in parts {
                    let b = p.concat();
                    let mut o = vec![];
                    if matches!(f.ty, Ty::Group(_)) {
                        put_key(&mut o, f.number, 3);
                        o.extend(b);
                        put_key(&mut o, f.number, 4);
                    } else {
                        put_key(&mut o, f.number, 2);
                        put_len(&mut o, &b);
                    }
                    recs.push(o);
                }
            }
            _ => {
                let mut o = vec![];
                noisy_single(s, m, f.number, f.ty, v, &mut o, noise);
                if noise && s.chance(1, 8) {
                    // an earlier value of the same field that must be overwritten
                    let other = gen_scalar(s, m, f.ty, &VCfg::default());
                    let mut e = vec![];
                    noisy_single(s, m, f.number, f.ty, &other, &mut e, noise);
                    recs.push(e);
                }
                recs.push(o);
            }
        }
    }
    for (n, v) in &r.unk {
        let mut o = vec![];
        enc_unk(*n, v, &mut o);
        recs.push(o);
    }
    recs
}
fn key_zero(m: &Model, ty: Ty) -> RKey {
    m.zero(ty).to_key().unwrap()
}
fn noisy_payload(s: &mut Src, ty: Ty, v: &RVal, o: &mut Vec<u8>, noise: bool) {
    if noise && ty.wire() == 0 && s.chance(1, 6) {
        let pad = 1 + s.us(9);
        let mut x = varint_of(ty, v);
        if ty == Ty::Bool && x == 1 && s.flip() {
            x = *s.pick(&[2u64, 0x80, u64::MAX, 1 << 40]);
        }
        if matches!(ty, Ty::Int32 | Ty::Uint32 | Ty::Enum(_)) && s.flip() {
            // high bits beyond 32 are discarded by conforming parsers
            x = (x & 0xffff_ffff) | (s.below(4) << 32);
        }
        put_varint_padded(o, x, pad);
    } else {
        put_scalar(o, ty, v);
    }
}
fn noisy_single(s: &mut Src, m: &Model, num: u32, ty: Ty, v: &RVal, o: &mut Vec<u8>, noise: bool) {
    match v {
        RVal::Msg(x) => {
            let b = noisy(s, m, x, noise);
            if matches!(ty, Ty::Group(_)) {
                put_key(o, num, 3);
                o.extend(b);
                put_key(o, num, 4);
            } else {
                put_key(o, num, 2);
                put_len(o, &b);
            }
        }
        RVal::Str(_) | RVal::Bytes(_) => enc_single(m, num, ty, v, o),
        _ => {
            if noise && s.chance(1, 12) {
                // a padded key; keys are 32-bit varints
                let mut k = vec![];
                put_varint(&mut k, (num as u64) << 3 | ty.wire() as u64);
                let room = 5 - k.len();
                if room > 0 {
                    put_varint_padded(o, (num as u64) << 3 | ty.wire() as u64, 1 + s.us(room));
                } else {
                    o.extend(k);
                }
            } else {
                put_key(o, num, ty.wire());
            }
            noisy_payload(s, ty, v, o, noise);
        }
    }
}
/// Shuffles records of different fields while keeping the order within one field number.
pub fn noisy(s: &mut Src, m: &Model, r: &RMsg, noise: bool) -> Vec<u8> {
    let recs = noisy_records(s, m, r, noise);
    order_records(s, recs, noise)
}
pub fn order_records(s: &mut Src, mut recs: Vec<Vec<u8>>, noise: bool) -> Vec<u8> {
    if noise && recs.len() > 1 && s.flip() {
        s.shuffle(&mut recs);
    }
    recs.concat()
}

// ---- reference decoder --------------------------------------------------------------------

pub struct Rd<'a> { b: &'a [u8], p: usize }
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, p: 0 }
    }
    pub fn done(&self) -> bool {
        self.p >= self.b.len()
    }
    pub fn pos(&self) -> usize {
        self.p
    }
    pub fn varint(&mut self) -> Result<u64, String> {
        let mut v: u64 = 0;
        for i in 0..10 {
            let c = *self.b.get(self.p).ok_or("eof in varint")?;
            self.p += 1;
            if i == 9 && c > 1 {
                return Err("varint overflow".into());
            }
            v |= ((c & 0x7f) as u64) << (7 * i);
            if c < 0x80 {
                return Ok(v);
            }
        }
        Err("varint too long".into())
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.b.len() - self.p {
            return Err("eof".into());
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn len_delim(&mut self) -> Result<&'a [u8], String> {
        let n = self.varint()?;
        if n > (self.b.len() - self.p) as u64 {
            return Err("length beyond end".into());
        }
        self.take(n as usize)
    }
    pub fn key(&mut self) -> Result<(u32, u8), String> {
        let k = self.varint()?;
        if k > u32::MAX as u64 {
            return Err("key too large".into());
        }
        let (n, w) = ((k >> 3) as u32, (k & 7) as u8);
        if w > 5 {
            return Err("bad wire type".into());
        }
        if n == 0 {
            return Err("field number zero".into());
        }
        Ok((n, w))
    }
}
fn unk_value(r: &mut Rd, num: u32, wt: u8, depth: u32) -> Result<RUnk, String> {
    if depth == 0 {
        return Err("too deep".into());
    }
    Ok(match wt {
        0 => RUnk::Varint(r.varint()?),
        1 => RUnk::F64(u64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        2 => RUnk::Len(r.len_delim()?.to_vec()),
        3 => {
            let mut v = vec![];
            loop {
                let (n, w) = r.key()?;
                if w == 4 {
                    if n != num {
                        return Err("mismatched end group".into());
                    }
                    break;
                }
                v.push((n, unk_value(r, n, w, depth - 1)?));
            }
            RUnk::Group(v)
        }
        5 => RUnk::F32(u32::from_le_bytes(r.take(4)?.try_into().unwrap())),
        _ => return Err("unexpected end group".into()),
    })
}
pub fn dec_unks(b: &[u8]) -> Result<Vec<(u32, RUnk)>, String> {
    let mut r = Rd::new(b);
    let mut out = vec![];
    while !r.done() {
        let (n, w) = r.key()?;
        out.push((n, unk_value(&mut r, n, w, 200)?));
    }
    Ok(out)
}
fn from_varint(ty: Ty, v: u64) -> RVal {
    match ty {
        Ty::Int32 => RVal::I32(v as i32),
        Ty::Enum(_) => RVal::Enum(v as i32),
        Ty::Int64 => RVal::I64(v as i64),
        Ty::Uint32 => RVal::U32(v as u32),
        Ty::Uint64 => RVal::U64(v),
        Ty::Sint32 => {
            let v = v as u32;
            RVal::I32(((v >> 1) as i32) ^ -((v & 1) as i32))
        }
        Ty::Sint64 => RVal::I64(((v >> 1) as i64) ^ -((v & 1) as i64)),
        Ty::Bool => RVal::Bool(v != 0),
        _ => panic!("harness"),
    }
}
fn scalar(r: &mut Rd, ty: Ty, wt: u8) -> Result<RVal, String> {
    if wt != ty.wire() {
        return Err(format!("wire type {wt} for {ty:?}"));
    }
    Ok(match ty {
        Ty::Double => RVal::F64(f64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        Ty::Fixed64 => RVal::U64(u64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        Ty::Sfixed64 => RVal::I64(i64::from_le_bytes(r.take(8)?.try_into().unwrap())),
        Ty::Float => RVal::F32(f32::from_le_bytes(r.take(4)?.try_into().unwrap())),
        Ty::Fixed32 => RVal::U32(u32::from_le_bytes(r.take(4)?.try_into().unwrap())),
        Ty::Sfixed32 => RVal::I32(i32::from_le_bytes(r.take(4)?.try_into().unwrap())),
        Ty::String => RVal::Str(String::from_utf8(r.len_delim()?.to_vec()).map_err(|_| "utf8")?),
        Ty::Bytes => RVal::Bytes(r.len_delim()?.to_vec()),
        _ => from_varint(ty, r.varint()?),
    })
}
fn value_into(m: &Model, r: &mut Rd, num: u32, ty: Ty, wt: u8, prev: Option<RVal>, depth: u32) -> Result<RVal, String> {
    if let Some(mid) = ty.msg() {
        if depth == 0 {
            return Err("too deep".into());
        }
        let mut base = match prev {
            Some(RVal::Msg(x)) => x,
            _ => RMsg::new(mid),
        };
        match (ty, wt) {
            (Ty::Message(_), 2) => {
                let b = r.len_delim()?;
                merge(m, &mut base, b, depth - 1)?;
            }
            (Ty::Group(_), 3) => {
                merge_rd(m, &mut base, r, Some(num), depth - 1)?;
            }
            _ => return Err("wire type for message".into()),
        }
        Ok(RVal::Msg(base))
    } else {
        scalar(r, ty, wt)
    }
}
pub fn dec(m: &Model, mid: usize, b: &[u8]) -> Result<RMsg, String> {
    let mut out = RMsg::new(mid);
    merge(m, &mut out, b, 100)?;
    normalize(m, &mut out);
    Ok(out)
}
pub fn merge(m: &Model, out: &mut RMsg, b: &[u8], depth: u32) -> Result<(), String> {
    let mut r = Rd::new(b);
    merge_rd(m, out, &mut r, None, depth)
}
fn merge_rd(m: &Model, out: &mut RMsg, r: &mut Rd, group: Option<u32>, depth: u32) -> Result<(), String> {
    loop {
        if r.done() {
            return if group.is_some() { Err("eof in group".into()) } else { Ok(()) };
        }
        let (num, wt) = r.key()?;
        if wt == 4 {
            return if group == Some(num) { Ok(()) } else { Err("unexpected end group".into()) };
        }
        let fr = match m.field(out.mid, num) {
            Some(fr) => fr,
            None => {
                let u = unk_value(r, num, wt, depth)?;
                out.unk.push((num, u));
                continue;
            }
        };
        let f = fr.def();
        if let (FRef::F(_), Some(o)) = (fr, f.oneof) {
            for g in &m.msgs[out.mid].fields {
                if g.oneof == Some(o) && g.number != num {
                    out.f.remove(&g.number);
                }
            }
        }
        if m.is_map(f) {
            let (kf, vf) = m.map_kv(f);
            if wt != 2 {
                return Err("wire type for map".into());
            }
            if depth == 0 {
                return Err("too deep".into());
            }
            let b = r.len_delim()?;
            let mut er = Rd::new(b);
            let mut key = m.zero(kf.ty).to_key().unwrap();
            let mut val = m.zero(vf.ty);
            while !er.done() {
                let (n, w) = er.key()?;
                match n {
                    1 => key = scalar(&mut er, kf.ty, w)?.to_key().unwrap(),
                    2 => val = value_into(m, &mut er, 2, vf.ty, w, Some(val), depth)?,
                    _ => {
                        unk_value(&mut er, n, w, depth)?;
                    }
                }
            }
            if let RVal::Map(x) = out.f.entry(num).or_insert_with(|| RVal::Map(BTreeMap::new())) {
                x.insert(key, val);
            }
        } else if f.card == Card::Repeated {
            let mut items = vec![];
            if wt == 2 && f.ty.packable() {
                let b = r.len_delim()?;
                let mut pr = Rd::new(b);
                while !pr.done() {
                    items.push(scalar(&mut pr, f.ty, f.ty.wire())?);
                }
            } else {
                items.push(value_into(m, r, num, f.ty, wt, None, depth)?);
            }
            if let RVal::List(x) = out.f.entry(num).or_insert_with(|| RVal::List(vec![])) {
                x.extend(items);
            }
        } else {
            let prev = out.f.remove(&num);
            let v = value_into(m, r, num, f.ty, wt, prev, depth)?;
            out.f.insert(num, v);
        }
    }
}
/// Drops entries that carry no presence.
pub fn normalize(m: &Model, r: &mut RMsg) {
    let mid = r.mid;
    r.f.retain(|n, v| {
        let fr = m.field(mid, *n).unwrap();
        m.has_presence(mid, fr) || !is_implicit_default(m, fr.def(), v)
    });
    for v in r.f.values_mut() {
        norm_val(m, v);
    }
}
fn norm_val(m: &Model, v: &mut RVal) {
    match v {
        RVal::Msg(x) => normalize(m, x),
        RVal::List(l) => l.iter_mut().for_each(|v| norm_val(m, v)),
        RVal::Map(l) => l.values_mut().for_each(|v| norm_val(m, v)),
        _ => {}
    }
}
