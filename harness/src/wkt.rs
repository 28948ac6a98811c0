//! Valid contents for well-known types (values that have a JSON form).

use crate::model::*;
use crate::src::Src;
use crate::value::*;
use std::collections::BTreeMap;

pub const TS_MIN: i64 = -62135596800;
pub const TS_MAX: i64 = 253402300799;
pub const DUR_MAX: i64 = 315576000000;

pub fn gen_nanos(s: &mut Src) -> i32 {
    match s.weighted(&[3, 2, 2, 2, 1]) {
        0 => 0,
        1 => s.below(1000) as i32 * 1_000_000,
        2 => s.below(1_000_000) as i32 * 1000,
        3 => s.below(1_000_000_000) as i32,
        _ => *s.pick(&[1, 999_999_999, 10, 100_000_000, 999_999_000, 1_000]),
    }
}
pub fn gen_ts(s: &mut Src) -> (i64, i32) {
    let secs = match s.weighted(&[2, 3, 2, 3]) {
        0 => s.below(100) as i64,
        1 => s.range(TS_MIN, TS_MAX),
        2 => *s.pick(&[
            0, TS_MIN, TS_MAX, -1, 951782400, 951868799, 951868800, 68169600, 1709164800, 1709251199, 4107542399, 4107542400,
            -2208988800, -62135596799, 253402214400, 1582934400, -11644473600, 86399, 86400,
        ]),
        _ => {
            let day = s.range(TS_MIN / 86400, TS_MAX / 86400);
            day * 86400 + *s.pick(&[0i64, 1, 86399, 43200, 3600, 59, 60, 3599])
        }
    };
    (secs.clamp(TS_MIN, TS_MAX), gen_nanos(s))
}
pub fn gen_dur(s: &mut Src) -> (i64, i32) {
    let secs = match s.weighted(&[3, 2, 2]) {
        0 => s.below(100) as i64,
        1 => s.range(0, DUR_MAX),
        _ => *s.pick(&[0, 1, DUR_MAX, DUR_MAX - 1, 3600]),
    };
    let n = gen_nanos(s);
    if s.chance(2, 5) { (-secs, -n) } else { (secs, n) }
}
/// snake_case path that survives the camelCase round trip
pub fn gen_path(s: &mut Src) -> String {
    let n = 1 + s.below(3);
    let segs: Vec<String> = (0..n)
        .map(|_| {
            let k = 1 + s.below(3);
            (0..k).map(|_| s.pick(&["a", "foo", "bar", "x1", "q2z", "abc"]).to_string()).collect::<Vec<_>>().join("_")
        })
        .collect();
    segs.join(".")
}
fn fnum(m: &Model, mid: usize, name: &str) -> u32 {
    m.msgs[mid].fields.iter().find(|f| f.name == name).unwrap().number
}
pub fn gen_value_kind(s: &mut Src, m: &Model, mid: usize, depth: u32, c: &mut VCfg, out: &mut RMsg) {
    let deep = depth > 0 && c.budget > 0;
    match s.weighted(&[2, 2, 2, 2, if deep { 2 } else { 0 }, if deep { 2 } else { 0 }]) {
        0 => {
            out.f.insert(fnum(m, mid, "null_value"), RVal::Enum(0));
        }
        1 => {
            let mut v = s.f64v();
            if !v.is_finite() {
                v = 2.5;
            }
            out.f.insert(fnum(m, mid, "number_value"), RVal::F64(v));
        }
        2 => {
            out.f.insert(fnum(m, mid, "string_value"), RVal::Str(s.string()));
        }
        3 => {
            out.f.insert(fnum(m, mid, "bool_value"), RVal::Bool(s.flip()));
        }
        4 => {
            let sm = m.find_msg("google.protobuf.Struct").unwrap();
            out.f.insert(fnum(m, mid, "struct_value"), RVal::Msg(gen_msg(s, m, sm, depth - 1, c)));
        }
        _ => {
            let sm = m.find_msg("google.protobuf.ListValue").unwrap();
            out.f.insert(fnum(m, mid, "list_value"), RVal::Msg(gen_msg(s, m, sm, depth - 1, c)));
        }
    }
}
pub fn put_nz(out: &mut RMsg, n: u32, v: RVal, zero: bool) {
    if !zero {
        out.f.insert(n, v);
    }
}
pub fn gen_wkt(s: &mut Src, m: &Model, mid: usize, depth: u32, c: &mut VCfg, out: &mut RMsg) {
    let name = m.msgs[mid].full_name.clone();
    match name.as_str() {
        "google.protobuf.Timestamp" => {
            let (a, b) = gen_ts(s);
            put_nz(out, 1, RVal::I64(a), a == 0);
            put_nz(out, 2, RVal::I32(b), b == 0);
        }
        "google.protobuf.Duration" => {
            let (a, b) = gen_dur(s);
            put_nz(out, 1, RVal::I64(a), a == 0);
            put_nz(out, 2, RVal::I32(b), b == 0);
        }
        "google.protobuf.FieldMask" => {
            let n = s.below(4);
            let l: Vec<RVal> = (0..n).map(|_| RVal::Str(gen_path(s))).collect();
            put_nz(out, 1, RVal::List(l.clone()), l.is_empty());
        }
        "google.protobuf.Empty" => {}
        "google.protobuf.Struct" => {
            let n = if depth == 0 { 0 } else { s.below(4) };
            let vm = m.find_msg("google.protobuf.Value").unwrap();
            let mut mp = BTreeMap::new();
            for _ in 0..n {
                let k = s.string();
                let mut v = RMsg::new(vm);
                c.budget -= 1;
                gen_value_kind(s, m, vm, depth.saturating_sub(1), c, &mut v);
                mp.insert(RKey::Str(k), RVal::Msg(v));
            }
            put_nz(out, 1, RVal::Map(mp.clone()), mp.is_empty());
        }
        "google.protobuf.ListValue" => {
            let n = if depth == 0 { 0 } else { s.below(4) };
            let vm = m.find_msg("google.protobuf.Value").unwrap();
            let mut l = vec![];
            for _ in 0..n {
                let mut v = RMsg::new(vm);
                c.budget -= 1;
                gen_value_kind(s, m, vm, depth.saturating_sub(1), c, &mut v);
                l.push(RVal::Msg(v));
            }
            put_nz(out, 1, RVal::List(l.clone()), l.is_empty());
        }
        "google.protobuf.Value" => gen_value_kind(s, m, mid, depth, c, out),
        "google.protobuf.Any" => gen_any(s, m, depth, c, out),
        n if n.starts_with("google.protobuf.") && n.ends_with("Value") => {
            let ty = m.msgs[mid].fields[0].ty;
            let mut v = gen_scalar(s, m, ty, c);
            match &mut v {
                RVal::F32(x) if *x == 0.0 => *x = 0.0,
                RVal::F64(x) if *x == 0.0 => *x = 0.0,
                _ => {}
            }
            if v != m.zero(ty) {
                out.f.insert(1, v);
            }
        }
        _ => {}
    }
}
/// An Any holding a type of the pool.
pub fn gen_any(s: &mut Src, m: &Model, depth: u32, c: &mut VCfg, out: &mut RMsg) {
    let mids: Vec<usize> = (0..m.msgs.len())
        .filter(|&i| !m.msgs[i].map_entry && (!m.files[m.msgs[i].file].wkt || WKT_NAMES.contains(&m.msgs[i].full_name.as_str())))
        .collect();
    let mut t = *s.pick(&mids);
    if depth >= 2 && s.chance(1, 5) {
        t = m.find_msg("google.protobuf.Any").unwrap();
    }
    if depth == 0 || m.msgs[t].full_name == "google.protobuf.Any" && depth < 2 {
        t = m.find_msg("google.protobuf.Empty").unwrap();
    }
    let inner = gen_msg(s, m, t, depth.saturating_sub(1), c);
    let prefix = match s.weighted(&[10, 3]) {
        0 => *s.pick(&["type.googleapis.com/", "example.com/", "type.googleapis.com/"]),
        _ => *s.pick(&["/", "a-b.com/", "x/y/", "1.2/", "é/", "a.b//", "a..b/", "x]{}/", "\"/", "a.1b/", " /", "_/", "localhost/", "a\n/"]),
    };
    let b = crate::wire::enc(m, &inner);
    out.f.insert(1, RVal::Str(format!("{prefix}{}", m.msgs[t].full_name)));
    put_nz(out, 2, RVal::Bytes(b.clone()), b.is_empty());
}

// ---- reading timestamps and durations from text -----------------------------------------------

/// What a text denotes: `Some(Some(value))`, not a value (`Some(None)`), or left open (`None`).
pub fn read_ts(t: &str) -> Option<Option<(i64, i32)>> {
    let b = t.as_bytes();
    let num = |r: std::ops::Range<usize>| -> Option<i64> {
        let x = b.get(r)?;
        x.iter().all(u8::is_ascii_digit).then(|| std::str::from_utf8(x).unwrap().parse().unwrap())
    };
    let parse = || -> Option<(i64, i64, i64, i64, i64, i64, &str, i64)> {
        for (i, c) in [(4, b'-'), (7, b'-'), (10, b'T'), (13, b':'), (16, b':')] {
            if *b.get(i)? != c {
                return None;
            }
        }
        let (y, mo, d, h, mi, s) = (num(0..4)?, num(5..7)?, num(8..10)?, num(11..13)?, num(14..16)?, num(17..19)?);
        let mut i = 19;
        let mut frac = "";
        if b.get(i) == Some(&b'.') {
            let n = b[20..].iter().take_while(|c| c.is_ascii_digit()).count();
            if n == 0 {
                return None;
            }
            frac = &t[20..20 + n];
            i = 20 + n;
        }
        let off = match b.get(i)? {
            b'Z' if b.len() == i + 1 => 0,
            c @ (b'+' | b'-') if b.len() == i + 6 && b[i + 3] == b':' => {
                let (h, m) = (num(i + 1..i + 3)?, num(i + 4..i + 6)?);
                if h > 23 || m > 59 {
                    return Some((y, mo, d, h, mi, s, frac, i64::MAX));
                }
                (if *c == b'-' { -1 } else { 1 }) * (h * 60 + m)
            }
            _ => return None,
        };
        Some((y, mo, d, h, mi, s, frac, off))
    };
    let Some((y, mo, d, h, mi, s, frac, off)) = parse() else { return Some(None) };
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let ml = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if y == 0 || mo == 0 || mo > 12 || d == 0 || d > ml[mo as usize - 1] || mi > 59 || h > 24 || s > 60 {
        return Some(None);
    }
    // leap seconds, midnight as 24:00, large offsets and more than nanoseconds
    if h == 24 || s == 60 || off == i64::MAX || frac.len() > 9 {
        return None;
    }
    let (y0, leaps) = (y - 1, |y: i64| y / 4 - y / 100 + y / 400);
    let days = 365 * (y - 1970) + leaps(y0) - leaps(1969) + ml[..mo as usize - 1].iter().sum::<i64>() + d - 1;
    let secs = days * 86400 + h * 3600 + mi * 60 + s - off * 60;
    if !(TS_MIN..=TS_MAX).contains(&secs) {
        return Some(None);
    }
    Some(Some((secs, format!("{frac:0<9}").parse().unwrap())))
}
pub fn read_dur(t: &str) -> Option<Option<(i64, i32)>> {
    let (neg, r) = t.strip_prefix('-').map_or((false, t), |r| (true, r));
    let Some(r) = r.strip_suffix('s') else { return Some(None) };
    let (int, frac) = r.split_once('.').map_or((r, None), |(a, b)| (a, Some(b)));
    let digits = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
    if int.starts_with('+') {
        return None;
    }
    if !digits(int) || !digits(frac.unwrap_or("")) {
        return Some(None);
    }
    // a missing whole or fractional part, and more than nanoseconds
    if int.is_empty() || frac.is_some_and(|f| f.is_empty() || f.len() > 9) {
        return if int.is_empty() && frac.unwrap_or("").is_empty() { Some(None) } else { None };
    }
    let Ok(s) = int.parse::<i64>() else { return Some(None) };
    let n: i32 = format!("{:0<9}", frac.unwrap_or("")).parse().unwrap();
    if s > DUR_MAX {
        return Some(None);
    }
    if s == DUR_MAX && n > 0 {
        return None;
    }
    Some(Some(if neg { (-s, -n) } else { (s, n) }))
}
pub fn edit_text(s: &mut Src, t: &str, abc: &str) -> String {
    let abc: Vec<char> = abc.chars().collect();
    let mut t: Vec<char> = t.chars().collect();
    for _ in 0..1 + s.below(2) {
        let i = s.us(t.len() + 1);
        match s.below(4) {
            0 if i < t.len() => {
                t.remove(i);
            }
            1 => t.insert(i, *s.pick(&abc)),
            2 if i + 1 < t.len() => t.swap(i, i + 1),
            _ if i < t.len() => t[i] = *s.pick(&abc),
            _ => {}
        }
    }
    t.into_iter().collect()
}
