//! C20, C21: histories of descriptor pools.

use super::descp::{err_text, show, surface, big_cfg};
use super::faults::{self, fld, msg, Faults};
use crate::desc::{self, join, Dump, Expected};
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::src::Src;
use prost::Message as _;
use prost_reflect::{DescriptorPool, DynamicMessage, MessageDescriptor, ReflectMessage, Value};
use prost_types::{descriptor_proto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};

pub const C20: Prop = Prop {
    id: "C20",
    run: c20,
    quick: 40_000,
    thorough: 600_000,
    rule: "the history has at least one failing addition and at least one successful addition after it",
};

fn expected(files: &[FileDescriptorProto]) -> Dump {
    match desc::expect(files) {
        Expected::Valid(d, _) => d,
        Expected::Invalid(e) => panic!("harness: the model of the pool is invalid: {e}"),
        Expected::Unsure => panic!("harness: the model of the pool is ambiguous"),
    }
}

/// Adds files through one of the ways there are.
pub fn add(s: &mut Src, p: &mut DescriptorPool, files: &[FileDescriptorProto]) -> Result<(), prost_reflect::DescriptorError> {
    let set = FileDescriptorSet { file: files.to_vec() };
    if files.len() == 1 {
        match s.below(3) {
            0 => return p.add_file_descriptor_proto(files[0].clone()),
            1 => return p.decode_file_descriptor_proto(s.split(files[0].encode_to_vec())),
            _ => {}
        }
    }
    match s.below(3) {
        0 => p.add_file_descriptor_set(set),
        1 => p.decode_file_descriptor_set(s.split(set.encode_to_vec())),
        _ => p.add_file_descriptor_protos(files.to_vec()),
    }
}

struct Held { md: MessageDescriptor, dump: Dump, dm: DynamicMessage, bytes: Vec<u8> }
struct Live { pool: DescriptorPool, files: Vec<FileDescriptorProto> }

/// A valid file and a later one, with the same names in other roles.
fn ghost(s: &mut Src, present: &[FileDescriptorProto], later: bool) -> FileDescriptorProto {
    let mut f = FileDescriptorProto { name: Some("ghost.proto".into()), ..Default::default() };
    // an extension of a message that is there
    let base = faults::sites(present).into_iter().filter(|x| {
        let mut all = present.to_vec();
        !x.proto3 && faults::msg_mut(&mut all, x).extension_range.iter().any(|r| r.start() <= 150 && 150 < r.end())
    }).collect::<Vec<_>>();
    if !base.is_empty() {
        let b = s.pick(&base);
        let used = present.iter().any(|f| f.extension.iter().any(|x| x.number() == 150)) || faults::sites(present).iter().any(|x| {
            let mut all = present.to_vec();
            faults::msg_mut(&mut all, x).extension.iter().any(|x| x.number() == 150)
        });
        if !used {
            f.dependency.push(present[b.file].name().to_string());
            f.extension.push(FieldDescriptorProto {
                extendee: Some(format!(".{}", b.full)),
                ..fld(if later { "GhB" } else { "GhA" }, 150, prost_types::field_descriptor_proto::Type::Int32)
            });
        }
    }
    if later {
        // what was a package is a message, what was a message is a package
        f.package = Some("gm.A".into());
        f.message_type = vec![msg("b", vec![])];
        f.service = vec![prost_types::ServiceDescriptorProto { name: Some("GhA".into()), ..Default::default() }];
        f.enum_type = vec![faults::enm("GhE", vec![faults::val("f", 0), faults::val("GhV", 1)])];
    } else {
        f.package = Some("gm".into());
        let mut a = msg("A", vec![fld("f", 1, prost_types::field_descriptor_proto::Type::Int32)]);
        a.extension_range.push(descriptor_proto::ExtensionRange { start: Some(10), end: Some(20), options: None });
        a.nested_type.push(msg("GhE", vec![]));
        f.message_type = vec![a];
        f.enum_type = vec![faults::enm("GhE", vec![faults::val("GhV", 0)])];
        f.extension.push(FieldDescriptorProto { extendee: Some("A".into()), ..fld("b", 10, prost_types::field_descriptor_proto::Type::Int32) });
    }
    f
}

fn c20(c: &mut Ctx) -> R {
    let mut cfg = Cfg { max_files: 1 + c.s.below(4), max_msgs: 1 + c.s.below(3), max_fields: 1 + c.s.below(4), services: true, ..Default::default() };
    if c.s.chance(1, 20) {
        cfg.wkt = true;
    }
    let m = gen_model(&mut c.s, &cfg);
    let base = m.fds().file;
    let mut universe = surface(&mut c.s, &base);
    if c.s.chance(1, 5) {
        // something that was added without ever failing, to be present in all pools
        universe.insert(0, FileDescriptorProto { name: Some("first.proto".into()), package: Some("gm.z".into()), ..Default::default() });
    }
    let n = universe.len();
    let mut pools: Vec<Live> = vec![Live { pool: DescriptorPool::new(), files: vec![] }];
    let mut held: Vec<Held> = vec![];
    let mut log = vec![];
    let (mut failed, mut nontrivial) = (0u32, false);
    c.digest(&FileDescriptorSet { file: universe.clone() }.encode_to_vec());
    c.note(|| show(&universe));
    let steps = 3 + c.s.below(8);
    for _ in 0..steps {
        let pi = c.s.us(pools.len());
        let absent: Vec<usize> = (0..n).filter(|&i| !pools[pi].files.iter().any(|f| f.name() == universe[i].name())).collect();
        // a batch which can be added: some absent files and what they need
        let mut batch: BTreeSet<usize> = BTreeSet::new();
        if !absent.is_empty() {
            let mut todo = vec![*c.s.pick(&absent)];
            if c.s.chance(1, 3) {
                todo.push(*c.s.pick(&absent));
            }
            while let Some(i) = todo.pop() {
                if absent.contains(&i) && batch.insert(i) {
                    for d in &universe[i].dependency {
                        todo.extend((0..n).find(|&j| universe[j].name() == d));
                    }
                }
            }
        }
        let mut files: Vec<FileDescriptorProto> = batch.iter().map(|&i| universe[i].clone()).collect();
        let what = c.s.weighted(&[4, 6, 2, 2, 2, 1]);
        match what {
            // succeeds
            0 => {
                if files.is_empty() {
                    continue;
                }
                let has_ghost = pools[pi].files.iter().any(|f| f.name() == "ghost.proto");
                if !has_ghost && failed > 0 && c.s.flip() {
                    let role = c.s.chance(2, 3);
                    let g = ghost(&mut c.s, &[pools[pi].files.clone(), files.clone()].concat(), role);
                    files.push(g);
                }
                pools[pi].files.extend(files.clone());
                if c.s.chance(1, 3) {
                    // a file that is there already, possibly in another version
                    let mut f = c.s.pick(&pools[pi].files.clone()).clone();
                    if !files.iter().any(|g| g.name() == f.name()) {
                        if c.s.flip() {
                            f.message_type.push(msg("GhX", vec![]));
                            f.syntax = Some("proto9".into());
                        }
                        files.push(f);
                    }
                }
                if c.s.chance(1, 3) {
                    c.s.shuffle(&mut files);
                }
                log.push(format!("pool {pi}: add {:?}", files.iter().map(|f| f.name()).collect::<Vec<_>>()));
                if let Err(e) = add(&mut c.s, &mut pools[pi].pool, &files) {
                    return fail("valid addition", format!("{log:?}: the last step failed: {}", err_text(&e)));
                }
                nontrivial |= failed > 0;
            }
            // fails
            1 => {
                let first = pools[pi].files.len();
                let mut all = [pools[pi].files.clone(), files.clone()].concat();
                if !all.iter().any(|f| f.name() == "ghost.proto") && c.s.flip() {
                    let role = c.s.chance(1, 3);
                    let g = ghost(&mut c.s, &pools[pi].files, role);
                    let at = if c.s.flip() { all.len() } else { first };
                    all.insert(at, g);
                }
                if all.len() == first {
                    all.push(FileDescriptorProto { name: Some("zz0.proto".into()), package: Some("zzp".into()), message_type: vec![msg("ZzM", vec![])], ..Default::default() });
                }
                let mut p = Faults { s: &mut c.s, files: all, at: vec![], kind: String::new(), none: false, first };
                // more often: failures at the options, with odd packages, and empty type names
                let kind = match p.s.weighted(&[8, 4, 1, 1, 1]) {
                    0 => None,
                    1 => Some(33),
                    2 => Some(5),
                    3 => Some(29),
                    _ => Some(19),
                };
                let late = kind == Some(33);
                let planted = match kind {
                    Some(k) => p.plant_kind(k),
                    None => p.plant(),
                };
                if planted.is_none() {
                    continue;
                }
                let (all, kind) = (p.files, p.kind);
                let mut bad = all[first..].to_vec();
                if c.s.chance(1, 4) {
                    c.s.shuffle(&mut bad);
                }
                log.push(format!("pool {pi}: fail to add {:?} ({kind})", bad.iter().map(|f| f.name()).collect::<Vec<_>>()));
                c.label(if late { "fails at options" } else { "fails earlier" });
                if add(&mut c.s, &mut pools[pi].pool, &bad).is_ok() {
                    return fail("accepted", format!("{log:?}: the last step was accepted"));
                }
                failed += 1;
            }
            // has no effect
            2 => {
                if pools[pi].files.is_empty() {
                    continue;
                }
                let mut f = c.s.pick(&pools[pi].files).clone();
                if c.s.flip() {
                    f.message_type.clear();
                    f.dependency.push("zz/none.proto".into());
                }
                log.push(format!("pool {pi}: add {} again", f.name()));
                if let Err(e) = add(&mut c.s, &mut pools[pi].pool, &[f]) {
                    return fail("again", format!("{log:?}: the last step failed: {}", err_text(&e)));
                }
            }
            // clone
            3 => {
                if pools.len() < 4 {
                    log.push(format!("pool {}: clone of {pi}", pools.len()));
                    let p = pools[pi].pool.clone();
                    let files = pools[pi].files.clone();
                    pools.push(Live { pool: p, files });
                }
            }
            // keep a descriptor and a message
            4 => {
                let mds: Vec<MessageDescriptor> = pools[pi].pool.all_messages().filter(|m| !m.is_map_entry()).collect();
                if !mds.is_empty() {
                    let md = c.s.pick(&mds).clone();
                    let mut dm = DynamicMessage::new(md.clone());
                    for f in md.fields().chain([]) {
                        if !f.is_list() && !f.is_map() && f.kind().as_message().is_none() && f.containing_oneof().is_none() {
                            dm.set_field(&f, f.kind().default_value());
                        }
                    }
                    for x in md.extensions() {
                        if x.is_list() {
                            dm.set_extension(&x, Value::List(vec![x.kind().default_value()]));
                        }
                    }
                    log.push(format!("keep {} of pool {pi}", md.full_name()));
                    let bytes = dm.encode_to_vec();
                    held.push(Held { dump: expected(&pools[pi].files), md, dm, bytes });
                }
            }
            // bytes that are no file
            _ => {
                let mut b = FileDescriptorSet { file: files.clone() }.encode_to_vec();
                b.extend(*c.s.pick(&[&[0x0a, 0x7f][..], &[0x0a, 2, 0x22, 9], &[0xff], &[0x0c], &[0x0a, 3, 0x0a, 1, 0xff]]));
                log.push(format!("pool {pi}: fail to decode"));
                let r = pools[pi].pool.decode_file_descriptor_set(b.as_slice());
                ensure!(r.is_err(), "accepted", "{log:?}: the last step was accepted");
                failed += 1;
            }
        }
        let others: Vec<usize> = (0..pools.len()).filter(|&i| i == pi || c.s.chance(1, 3)).collect();
        for i in others {
            let d = desc::dump(&pools[i].pool, false)?;
            desc::same("pool", &format!("{log:?}: pool {i}"), &expected(&pools[i].files), &d)?;
        }
    }
    c.nontrivial = nontrivial;
    c.label_if(pools.len() > 1, "clones");
    c.label_if(!held.is_empty(), "descriptors kept");
    if c.s.flip() {
        pools.clear();
    }
    for (i, p) in pools.iter().enumerate() {
        desc::same("pool", &format!("{log:?}: finally, pool {i}"), &expected(&p.files), &desc::dump(&p.pool, false)?)?;
        // nothing is left of what failed
        ensure!(DescriptorPool::decode(p.pool.encode_to_vec().as_slice()).is_ok(), "encoded", "{log:?}: pool {i} cannot be decoded after encoding");
        for n in ["gm", "gm.A", "gm.A.b", "gm.GhE", "zz", "ZzE", "ZzSvc", "zzp.ZzM", "GhA", "gm.GhA"] {
            let want = expected(&p.files);
            ensure!(p.pool.get_message_by_name(n).is_some() == want.contains_key(&format!("msg {n} / path")), "left over", "{log:?}: pool {i} has a message {n}");
            ensure!(p.pool.get_enum_by_name(n).is_some() == want.contains_key(&format!("enum {n} / path")), "left over", "{log:?}: pool {i} has an enum {n}");
            ensure!(p.pool.get_extension_by_name(n).is_some() == want.contains_key(&format!("ext {n} / path")), "left over", "{log:?}: pool {i} has an extension {n}");
            ensure!(p.pool.get_service_by_name(n).is_some() == want.contains_key(&format!("service {n} / path")), "left over", "{log:?}: pool {i} has a service {n}");
        }
    }
    for h in &held {
        desc::same("descriptor", &format!("{log:?}: the pool of {}, obtained earlier", h.md.full_name()), &h.dump, &desc::dump(h.md.parent_pool(), false)?)?;
        ensure!(h.dm.descriptor() == h.md && h.dm.encode_to_vec() == h.bytes, "message", "{log:?}: the message {} changed", h.md.full_name());
        let back = DynamicMessage::decode(h.md.clone(), h.bytes.as_slice());
        ensure!(back.as_ref().map(|b| b.encode_to_vec()).ok().as_ref() == Some(&h.bytes), "message", "{log:?}: the message {} reads back as {back:?}", h.md.full_name());
    }
    if c.s.chance(1, 300) {
        global(c)?;
    }
    Ok(())
}

static GLOBAL: AtomicU64 = AtomicU64::new(0);
/// The same for the pool of the process (whose state lasts, so that names are never used twice).
fn global(c: &mut Ctx) -> R {
    let k = GLOBAL.fetch_add(1, Ordering::SeqCst);
    let file = |i: u64| FileDescriptorProto {
        name: Some(format!("global{k}_{i}.proto")),
        package: Some(format!("global{k}.p{i}")),
        message_type: vec![msg("M", vec![fld("a", 1, prost_types::field_descriptor_proto::Type::Int32)])],
        ..Default::default()
    };
    let good = file(0);
    let mut bad = file(1);
    bad.dependency.push("zz/none.proto".into());
    let name = join(good.package(), "M");
    let before = DescriptorPool::global();
    let d0 = desc::dump(&before, false)?;
    c.label("global pool");
    let r = if c.s.flip() {
        DescriptorPool::add_global_file_descriptor_proto(bad)
    } else {
        DescriptorPool::decode_global_file_descriptor_set(FileDescriptorSet { file: vec![good.clone(), bad] }.encode_to_vec().as_slice())
    };
    ensure!(r.is_err(), "global", "a file with a missing import was added to the global pool");
    let after = DescriptorPool::global();
    desc::same("global", "the global pool after a failure", &d0, &desc::dump(&after, false)?)?;
    let r = if c.s.flip() {
        DescriptorPool::add_global_file_descriptor_proto(good.clone())
    } else {
        DescriptorPool::decode_global_file_descriptor_set(FileDescriptorSet { file: vec![good.clone()] }.encode_to_vec().as_slice())
    };
    if let Err(e) = r {
        return fail("global", format!("a valid file was not added to the global pool: {}", err_text(&e)));
    }
    desc::same("global", "a copy of the global pool", &d0, &desc::dump(&before, false)?)?;
    desc::same("global", "a copy of the global pool", &d0, &desc::dump(&after, false)?)?;
    ensure!(before.get_message_by_name(&name).is_none(), "global", "a copy of the global pool has a later file");
    let g = DescriptorPool::global();
    let mut want = d0;
    want.extend(expected(&[good]));
    desc::same("global", "the global pool", &want, &desc::dump(&g, false)?)?;
    let mut mine = DescriptorPool::global();
    if mine.add_file_descriptor_proto(file(2)).is_err() {
        return fail("global", "a valid file was not added to a copy of the global pool");
    }
    ensure!(DescriptorPool::global().get_file_by_name(file(2).name()).is_none(), "global", "a file added to a copy is in the global pool");
    Ok(())
}

// ---- C21 ---------------------------------------------------------------------------------------

pub const C21: Prop = Prop {
    id: "C21",
    run: c21,
    quick: 30_000,
    thorough: 600_000,
    rule: "the set has at least two files, or options that are unknown to the standard definitions",
};

/// Adds to the options of definitions in an encoded file. `f` gets the kind of the options and their bytes.
pub fn splice(b: &[u8], kind: &'static str, path: &[i32], f: &mut dyn FnMut(&'static str, &[i32], Option<&[u8]>) -> Option<Vec<u8>>) -> Vec<u8> {
    let mut seen = std::collections::BTreeMap::new();
    let (subs, opt): (&[(u32, &'static str)], u32) = match kind {
        "File" => (&[(4, "Message"), (5, "Enum"), (6, "Service"), (7, "Field")], 8),
        "Message" => (&[(2, "Field"), (3, "Message"), (4, "Enum"), (5, "ExtensionRange"), (6, "Field"), (8, "Oneof")], 7),
        "Field" => (&[], 8),
        "Oneof" => (&[], 2),
        "ExtensionRange" => (&[], 3),
        "Enum" => (&[(2, "EnumValue")], 3),
        "EnumValue" => (&[], 3),
        "Service" => (&[(2, "Method")], 3),
        "Method" => (&[], 4),
        _ => unreachable!(),
    };
    let mut out = vec![];
    let mut options: Option<Vec<u8>> = None;
    let mut i = 0;
    let varint = |i: &mut usize| {
        let mut v = 0u64;
        let mut sh = 0;
        loop {
            let x = b[*i];
            *i += 1;
            v |= ((x & 0x7f) as u64) << sh;
            sh += 7;
            if x < 0x80 {
                return v;
            }
        }
    };
    while i < b.len() {
        let start = i;
        let tag = varint(&mut i);
        match tag & 7 {
            0 => {
                varint(&mut i);
                out.extend(&b[start..i]);
            }
            2 => {
                let n = varint(&mut i) as usize;
                let body = &b[i..i + n];
                i += n;
                let num = (tag >> 3) as u32;
                if num == opt {
                    options.get_or_insert_with(Vec::new).extend(body);
                } else if let Some((_, k)) = subs.iter().find(|s| s.0 == num) {
                    let n: &mut i32 = seen.entry(num).or_default();
                    let sub = [path, &[num as i32, *n]].concat();
                    *n += 1;
                    put(&mut out, num, &splice(body, k, &sub, f));
                } else {
                    out.extend(&b[start..i]);
                }
            }
            _ => unreachable!(),
        }
    }
    if let Some(o) = f(kind, path, options.as_deref()) {
        put(&mut out, opt, &o);
    }
    out
}
pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn put(out: &mut Vec<u8>, num: u32, body: &[u8]) {
    put_varint(out, (num as u64) << 3 | 2);
    put_varint(out, body.len() as u64);
    out.extend(body);
}
fn unknown_option(s: &mut Src) -> Vec<u8> {
    let num = *s.pick(&[1000u32, 2000, 12345, 50_000, 99_999_999, 536_870_911]);
    let mut o = vec![];
    match s.below(5) {
        0 => {
            put_varint(&mut o, (num as u64) << 3);
            put_varint(&mut o, s.u64v());
        }
        1 => {
            put_varint(&mut o, (num as u64) << 3 | 5);
            o.extend(s.u32v().to_le_bytes());
        }
        2 => {
            put_varint(&mut o, (num as u64) << 3 | 1);
            o.extend(s.u64v().to_le_bytes());
        }
        3 => {
            let b = s.bytes();
            put(&mut o, num, &b);
        }
        _ => {
            put_varint(&mut o, (num as u64) << 3 | 3);
            put_varint(&mut o, 8);
            put_varint(&mut o, 5);
            put_varint(&mut o, (num as u64) << 3 | 4);
        }
    }
    o
}

pub fn set_bytes(files: &[Vec<u8>]) -> Vec<u8> {
    let mut out = vec![];
    for f in files {
        put(&mut out, 1, f);
    }
    out
}

fn c21(c: &mut Ctx) -> R {
    let cfg = big_cfg(&mut c.s);
    let m = gen_model(&mut c.s, &cfg);
    let mut files = surface(&mut c.s, &m.fds().file);
    if c.s.chance(1, 12) {
        let g = DescriptorPool::global();
        let f = g.get_file_by_name("google/protobuf/descriptor.proto").unwrap().file_descriptor_proto().clone();
        files.insert(0, f);
        c.label("with descriptor.proto");
    }
    let with_unknown = c.s.flip();
    let mut unknown: Vec<(&str, Vec<u8>)> = vec![];
    let bytes: Vec<Vec<u8>> = files
        .iter()
        .map(|f| {
            let b = f.encode_to_vec();
            if !with_unknown || f.package() == "google.protobuf" {
                return b;
            }
            splice(&b, "File", &[], &mut |kind, _, o| {
                if c.s.chance(1, 6) {
                    let u = unknown_option(&mut c.s);
                    let mut r = o.unwrap_or(&[]).to_vec();
                    r.extend(&u);
                    unknown.push((kind, u));
                    Some(r)
                } else {
                    o.map(|o| o.to_vec())
                }
            })
        })
        .collect();
    c.note(|| format!("{}\nunknown options {unknown:?}", show(&files)));
    c.digest(&set_bytes(&bytes));
    c.nontrivial = files.len() > 1 || !unknown.is_empty();
    c.label_if(!unknown.is_empty(), "unknown options");
    let pool = match DescriptorPool::decode(c.s.split(set_bytes(&bytes))) {
        Ok(p) => p,
        Err(e) => return fail("rejected", format!("valid files rejected: {}", err_text(&e))),
    };
    let dump = desc::dump(&pool, false)?;
    let all_options: String = dump.iter().filter(|(k, _)| k.ends_with(" / options")).map(|(_, v)| format!("{v} ")).collect();
    // encoding and decoding
    let enc = pool.encode_to_vec();
    let mut buf = vec![];
    ensure!(pool.encode(&mut buf).is_ok() && buf == enc, "encode", "encode() and encode_to_vec() differ");
    // room for exactly that many bytes will do, and one less is an error
    let mut room = vec![0u8; enc.len()];
    let r = no_panic("encode into a slice", || pool.encode(&mut room[..]))?;
    ensure!(r.is_ok() && room == enc, "encode", "encode() into a slice of the exact length: {r:?}");
    if !enc.is_empty() {
        let r = no_panic("encode into a slice", || pool.encode(&mut room[1..]))?;
        ensure!(r.is_err(), "encode", "encode() into a slice of one byte less succeeds");
    }
    for (kind, u) in &unknown {
        let u = desc::hex(u);
        // there is no accessor for those of extension ranges
        ensure!(*kind == "ExtensionRange" || all_options.contains(&u), "unknown", "the option {u} of a {kind} is not in any options() of the pool");
        ensure!(desc::hex(&enc).contains(&u), "unknown", "the option {u} of a {kind} is not in the encoded pool");
    }
    let back = match DescriptorPool::decode(c.s.split(&enc)) {
        Ok(p) => p,
        Err(e) => return fail("round trip", format!("the encoded pool was rejected: {}", err_text(&e))),
    };
    desc::same("round trip", "the pool and the one decoded from it", &dump, &desc::dump(&back, false)?)?;
    ensure!(back.encode_to_vec() == enc, "stable", "encoding the decoded pool gives other bytes\n  first  {}\n  second {}", desc::hex(&enc), desc::hex(&back.encode_to_vec()));
    ensure!(pool.encode_to_vec() == enc, "stable", "encoding twice gives different bytes");
    // one file after the other
    let mut one = DescriptorPool::new();
    let mut joined = vec![];
    for f in pool.files() {
        let b = f.encode_to_vec();
        let mut buf = vec![];
        ensure!(f.encode(&mut buf).is_ok() && buf == b, "encode", "encode() and encode_to_vec() of {} differ", f.name());
        put(&mut joined, 1, &b);
        let r = if with_unknown || c.s.flip() { one.decode_file_descriptor_proto(c.s.split(&b)) } else { one.add_file_descriptor_proto(f.file_descriptor_proto().clone()) };
        if let Err(e) = r {
            return fail("one file", format!("{}, taken from a pool, was rejected: {}", f.name(), err_text(&e)));
        }
    }
    desc::same("one file", "the pool and one made from its files", &dump, &desc::dump(&one, false)?)?;
    ensure!(joined == enc && one.encode_to_vec() == enc, "one file", "the encoded pool is not the sequence of its encoded files");
    // what the bytes mean to an independent reader
    match FileDescriptorSet::decode(enc.as_slice()) {
        Err(e) => return fail("encode", format!("the encoded pool is no FileDescriptorSet: {e}")),
        Ok(set) => {
            let norm = match desc::expect(&files) {
                Expected::Valid(_, n) => n,
                _ => panic!("harness: generated schema is not valid"),
            };
            ensure!(set.file.len() == norm.len(), "encode", "the encoded pool has {} files instead of {}", set.file.len(), norm.len());
            for (a, b) in set.file.iter().zip(&norm) {
                let (a, b) = (clear_options(desc::norm_file(a)), clear_options(desc::norm_file(b)));
                ensure!(a == b, "encode", "the encoded form of {} differs\n  expected {b:?}\n  got      {a:?}", b.name());
            }
        }
    }
    // any order, in any number of steps, from structs or bytes
    let mut left: Vec<usize> = (0..files.len()).collect();
    let mut p = if c.s.chance(1, 4) { DescriptorPool::default() } else { DescriptorPool::new() };
    let mut order = vec![];
    while !left.is_empty() {
        let ready: Vec<usize> = left
            .iter()
            .copied()
            .filter(|&i| files[i].dependency.iter().all(|d| files.iter().position(|f| f.name() == d).map_or(true, |j| !left.contains(&j))))
            .collect();
        let mut step = vec![*c.s.pick(&ready)];
        if c.s.flip() {
            // more of them, in any order within the step
            for &i in &left {
                let ok = files[i].dependency.iter().all(|d| files.iter().position(|f| f.name() == d).map_or(true, |j| !left.contains(&j) || step.contains(&j)));
                if ok && !step.contains(&i) && c.s.flip() {
                    step.push(i);
                }
            }
            c.s.shuffle(&mut step);
        }
        left.retain(|i| !step.contains(i));
        let r = if with_unknown {
            let b: Vec<Vec<u8>> = step.iter().map(|&i| bytes[i].clone()).collect();
            if b.len() == 1 && c.s.flip() { p.decode_file_descriptor_proto(c.s.split(&b[0])) } else { p.decode_file_descriptor_set(c.s.split(set_bytes(&b))) }
        } else {
            let f: Vec<FileDescriptorProto> = step.iter().map(|&i| files[i].clone()).collect();
            add(&mut c.s, &mut p, &f)
        };
        order.push(step);
        if let Err(e) = r {
            return fail("order", format!("adding the files in the order {order:?} failed: {}", err_text(&e)));
        }
    }
    desc::same("order", &format!("pools built at once and in the order {order:?}"), &dump, &desc::dump(&p, false)?)?;
    for f in p.files() {
        let same = pool.get_file_by_name(f.name()).map(|g| g.encode_to_vec()) == Some(f.encode_to_vec());
        ensure!(same, "order", "{} encodes differently if the files are added in the order {order:?}", f.name());
    }
    Ok(())
}
/// the comparison of options is left to the dumps
fn clear_options(mut f: FileDescriptorProto) -> FileDescriptorProto {
    fn msg(m: &mut prost_types::DescriptorProto) {
        m.options = None;
        m.field.iter_mut().chain(&mut m.extension).for_each(|f| f.options = None);
        m.oneof_decl.iter_mut().for_each(|f| f.options = None);
        m.extension_range.iter_mut().for_each(|f| f.options = None);
        m.enum_type.iter_mut().for_each(enum_);
        m.nested_type.iter_mut().for_each(msg);
    }
    fn enum_(e: &mut prost_types::EnumDescriptorProto) {
        e.options = None;
        e.value.iter_mut().for_each(|v| v.options = None);
    }
    f.options = None;
    f.message_type.iter_mut().for_each(msg);
    f.enum_type.iter_mut().for_each(enum_);
    f.extension.iter_mut().for_each(|x| x.options = None);
    f.service.iter_mut().for_each(|s| {
        s.options = None;
        s.method.iter_mut().for_each(|m| m.options = None);
    });
    f
}
