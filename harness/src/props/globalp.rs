//! C25: the global descriptor pool under concurrent use.

use super::faults::{fld, msg, rfld};
use crate::engine::*;
use crate::ensure;
use crate::src::Src;
use prost::Message as _;
use prost_reflect::{DescriptorPool, DynamicMessage, Kind, Value};
use prost_types::{descriptor_proto::ExtensionRange, field_descriptor_proto::Type, DescriptorProto, FieldDescriptorProto, FileDescriptorProto, FileDescriptorSet};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Barrier;

pub const C25: Prop = Prop {
    id: "C25",
    run: c25,
    quick: 4_000,
    thorough: 14_000,
    rule: "at least two additions by different threads overlapped in time, or a snapshot overlapped an addition",
};

static UNIQUE: AtomicU64 = AtomicU64::new(0);

/// What an addition must come to.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    /// always accepted
    Ok,
    /// never accepted, and leaves nothing
    Err,
    /// accepted if the file is there
    Needs(usize),
    /// at most one of those with the same number is accepted, and the first is
    Rival(u32),
    /// accepted in any case, but the first of those with the same number decides what is there
    SameName(u32),
}
#[derive(Clone)]
enum Act {
    /// files, want, as bytes
    Add(Vec<usize>, Want, bool),
    Snap,
    /// adds a file to a copy, which nobody else may see
    Local(usize),
}
struct Plan { files: Vec<FileDescriptorProto>, threads: Vec<Vec<Act>>, base: usize }

const P: &str = "@"; // stands for the unique prefix

fn file(name: &str, deps: &[&str]) -> FileDescriptorProto {
    FileDescriptorProto {
        name: Some(format!("{P}/{name}.proto")), package: Some(format!("{P}.{name}")),
        dependency: deps.iter().map(|d| if d.starts_with("google") { d.to_string() } else { format!("{P}/{d}.proto") }).collect(),
        ..Default::default()
    }
}
fn content(s: &mut Src, name: &str) -> DescriptorProto {
    let mut m = msg(name, vec![]);
    for i in 0..s.below(4) {
        m.field.push(fld(&format!("f{i}"), i as i32 + 1, *s.pick(&[Type::Int32, Type::String, Type::Bytes, Type::Double])));
    }
    m
}
fn ext(name: &str, number: i32) -> FieldDescriptorProto {
    FieldDescriptorProto { extendee: Some(format!(".{P}.base.Base")), ..fld(name, number, Type::Int32) }
}

fn plan(s: &mut Src) -> Plan {
    let nt = 2 + s.us(3);
    let mut files = vec![];
    let mut base = file("base", &[]);
    let mut b = msg("Base", vec![fld("a", 1, Type::Int32)]);
    b.extension_range.push(ExtensionRange { start: Some(100), end: Some(100000), options: None });
    base.message_type.push(b);
    files.push(base);
    let mut threads: Vec<Vec<Act>> = (0..nt).map(|_| vec![]).collect();
    let mut addable: Vec<usize> = vec![]; // single valid files somebody adds
    let items = 2 + s.us(3 * nt);
    let mut nth = 0;
    let mut rivals = 0u32;
    for _ in 0..items {
        nth += 1;
        let t = s.us(nt);
        let u = s.us(nt);
        let bytes = s.flip();
        let name = format!("n{nth}");
        match s.weighted(&[4, 4, 3, 3, 3, 3, 3, 4, 2, 2]) {
            // a valid file, sometimes of two threads
            0 => {
                let mut f = file(&name, &[]);
                f.message_type.push(content(s, "M"));
                if s.chance(1, 3) {
                    f.dependency.push("google/protobuf/timestamp.proto".into());
                    f.message_type[0].field.push(rfld("when", 9, ".google.protobuf.Timestamp"));
                }
                files.push(f);
                addable.push(files.len() - 1);
                threads[t].push(Act::Add(vec![files.len() - 1], Want::Ok, bytes));
                if s.chance(1, 3) {
                    threads[u].push(Act::Add(vec![files.len() - 1], Want::Ok, s.flip()));
                }
            }
            // a file which needs another
            1 if !addable.is_empty() => {
                let d = *s.pick(&addable);
                let dep = files[d].name()[2..].trim_end_matches(".proto").to_string();
                let mut f = file(&name, &[&dep]);
                f.message_type.push(msg("M", vec![rfld("r", 1, &format!(".{P}.{dep}.M"))]));
                files.push(f);
                threads[t].push(Act::Add(vec![files.len() - 1], Want::Needs(d), bytes));
            }
            // a set, in which files depend on each other
            2 => {
                let n = 2 + s.us(4);
                let ids: Vec<usize> = (0..n)
                    .map(|i| {
                        let dep = format!("{name}_{}", (i + 1) % n);
                        let mut f = if i + 1 < n { file(&format!("{name}_{i}"), &[&dep]) } else { file(&format!("{name}_{i}"), &[]) };
                        f.message_type.push(content(s, "M"));
                        if i + 1 < n {
                            f.message_type[0].field.push(rfld("r", 20, &format!("{P}.{dep}.M")));
                        }
                        files.push(f);
                        files.len() - 1
                    })
                    .collect();
                let mut set = ids.clone();
                s.shuffle(&mut set);
                threads[t].push(Act::Add(set, Want::Ok, true));
            }
            // a set with a fault in one
            3 => {
                let n = 1 + s.us(4);
                let bad = s.us(n);
                let kind = s.below(4);
                let ids: Vec<usize> = (0..n)
                    .map(|i| {
                        let mut f = file(&format!("{name}_{i}"), &["base"]);
                        f.message_type.push(content(s, "M"));
                        f.extension.push(ext("x", 5000 + nth * 10 + i as i32));
                        if i == bad {
                            match kind {
                                0 => f.message_type[0].field.push(rfld("r", 20, ".gone.M")),
                                1 => f.message_type.push(msg("M", vec![])),
                                2 => f.extension[0].number = Some(99),
                                _ => f.dependency.push("gone.proto".into()),
                            }
                        }
                        files.push(f);
                        files.len() - 1
                    })
                    .collect();
                threads[t].push(Act::Add(ids, Want::Err, n > 1 || bytes));
            }
            // extensions of one message
            4 => {
                let mut f = file(&name, &["base"]);
                f.extension.push(ext("x", 100 + nth));
                if s.flip() {
                    let mut m = msg("M", vec![]);
                    m.extension.push(ext("y", 1100 + nth));
                    f.message_type.push(m);
                }
                files.push(f);
                threads[t].push(Act::Add(vec![files.len() - 1], Want::Ok, bytes));
            }
            // the same name with other content
            5 => {
                rivals += 1;
                for v in 0..2 + s.us(2) {
                    let mut f = file(&name, &[]);
                    f.message_type.push(msg(&format!("V{v}"), vec![]));
                    files.push(f);
                    let k = s.us(nt);
                    threads[k].push(Act::Add(vec![files.len() - 1], Want::SameName(rivals), s.flip()));
                }
            }
            // the same definition, or the same extension number, in files of other names
            6 => {
                rivals += 1;
                let kind = s.below(3);
                for v in 0..2 + s.us(2) {
                    let mut f = file(&format!("{name}_{v}"), &["base"]);
                    match kind {
                        0 => f.extension.push(ext("x", 9000 + nth)),
                        1 => {
                            f.package = Some(format!("{P}.{name}"));
                            f.message_type.push(msg("M", vec![]));
                        }
                        _ if v == 0 => {
                            f.package = Some(format!("{P}.{name}.a"));
                            f.message_type.push(msg("M", vec![]));
                        }
                        // a message with the name of the other's package
                        _ => {
                            f.package = Some(format!("{P}.{name}"));
                            f.message_type.push(msg("a", vec![]));
                        }
                    }
                    files.push(f);
                    let k = s.us(nt);
                    threads[k].push(Act::Add(vec![files.len() - 1], Want::Rival(rivals), s.flip()));
                }
            }
            7 | 1 => threads[t].push(Act::Snap),
            8 => {
                let mut f = file(&name, &["base"]);
                f.message_type.push(content(s, "M"));
                f.extension.push(ext("x", 100 + nth));
                files.push(f);
                threads[t].push(Act::Local(files.len() - 1));
            }
            // alone, with a fault
            _ => {
                let mut f = file(&name, &["base"]);
                f.extension.push(ext("x", 100 + nth));
                f.message_type.push(msg("M", vec![rfld("r", 1, "Gone")]));
                files.push(f);
                threads[t].push(Act::Add(vec![files.len() - 1], Want::Err, bytes));
            }
        }
    }
    for t in &mut threads {
        s.shuffle(t);
        if s.flip() {
            t.push(Act::Snap);
        }
    }
    Plan { files, threads, base: 0 }
}

fn named(f: &FileDescriptorProto, prefix: &str) -> FileDescriptorProto {
    fn put(s: &mut Option<String>, p: &str) {
        if let Some(s) = s {
            *s = s.replace(P, p);
        }
    }
    let mut f = f.clone();
    put(&mut f.name, prefix);
    put(&mut f.package, prefix);
    for d in &mut f.dependency {
        *d = d.replace(P, prefix);
    }
    for x in f.extension.iter_mut().chain(f.message_type.iter_mut().flat_map(|m| m.extension.iter_mut().chain(m.field.iter_mut()))) {
        put(&mut x.type_name, prefix);
        put(&mut x.extendee, prefix);
    }
    f
}

/// What a pool says about the files of a case: file names in order, and a description of each.
#[derive(Clone, PartialEq, Debug)]
struct View { order: Vec<String>, text: BTreeMap<String, String>, exts: BTreeSet<u32> }
fn view(pool: &DescriptorPool, prefix: &str, names: &BTreeSet<String>) -> Result<View, Fail> {
    let dir = format!("{prefix}/");
    let mut v = View { order: vec![], text: BTreeMap::new(), exts: BTreeSet::new() };
    for f in pool.files() {
        if !f.name().starts_with(&dir) {
            continue;
        }
        v.order.push(f.name().to_string());
        let mut t = format!("{:?} deps {:?}\n", f.package_name(), f.dependencies().map(|d| d.name().to_string()).collect::<Vec<_>>());
        for m in f.messages() {
            t += &format!("message {}\n", m.full_name());
            ensure!(pool.get_message_by_name(m.full_name()).as_ref() == Some(&m), "lookup", "message {} of {} is not found by name", m.full_name(), f.name());
            ensure!(m.parent_file() == f, "lookup", "message {} has another parent", m.full_name());
            for x in m.fields() {
                let target = match x.kind() {
                    Kind::Message(m) => m.full_name().to_string(),
                    k => format!("{k:?}"),
                };
                t += &format!(" {} {} {}\n", x.name(), x.number(), target);
            }
            let mut d = DynamicMessage::new(m.clone());
            for x in m.fields() {
                if let Kind::String = x.kind() {
                    d.set_field(&x, Value::String("v".into()));
                }
            }
            let b = d.encode_to_vec();
            ensure!(DynamicMessage::decode(m.clone(), b.as_slice()).ok().as_ref() == Some(&d), "use", "a message of {} does not round trip", m.full_name());
        }
        for x in f.extensions().chain(f.messages().flat_map(|m| m.child_extensions().collect::<Vec<_>>())) {
            t += &format!("extension {} {} of {}\n", x.full_name(), x.number(), x.containing_message().full_name());
            ensure!(x.containing_message().get_extension(x.number()).as_ref() == Some(&x), "lookup", "extension {} is not found by its number", x.full_name());
        }
        ensure!(pool.get_file_by_name(f.name()).as_ref() == Some(&f), "lookup", "file {} is not found by name", f.name());
        ensure!(v.text.insert(f.name().to_string(), t).is_none(), "twice", "file {} is there twice", f.name());
    }
    for n in names {
        ensure!(pool.get_file_by_name(n).is_some() == v.text.contains_key(n), "lookup", "lookup of file {n} and the list of files disagree");
    }
    if let Some(b) = pool.get_message_by_name(&format!("{prefix}.base.Base")) {
        v.exts = b.extensions().map(|x| x.number()).collect();
    }
    Ok(v)
}

struct Done { act: Act, from: u64, to: u64, result: Result<(), String>, pool: Option<DescriptorPool>, view: Option<View> }

fn c25(c: &mut Ctx) -> R {
    // in a process of its own, where nothing has used the pool before
    if c.s.chance(1, 12) && std::env::var_os("VH_CHILD").is_none() {
        let seed = c.s.below(1 << 40);
        let f = std::env::temp_dir().join(format!("vh-c25-{}-{seed}.json", std::process::id()));
        std::fs::write(&f, serde_json::to_vec(&serde_json::json!({"property": "C25", "seed": seed})).unwrap()).unwrap();
        let mut st = None;
        for _ in 0..2 {
            let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", f.to_str().unwrap()]).env("VH_CHILD", "1").output().unwrap();
            if o.status.code() != Some(0) {
                st = Some((o.status, String::from_utf8_lossy(&o.stdout).into_owned()));
                break;
            }
        }
        let _ = std::fs::remove_file(&f);
        c.label("fresh process");
        if let Some((st, out)) = st {
            let at = out.find("signature:").unwrap_or(0);
            return fail("fresh process", format!("in a fresh process ({st}): {}", &out[at..]));
        }
        return Ok(());
    }
    let plan = plan(&mut c.s);
    let first = c.s.chance(1, 3); // the base is added by hand before, or by all threads at once
    for f in &plan.files {
        c.digest(&f.encode_to_vec());
    }
    c.note(|| {
        plan.threads.iter().enumerate().map(|(i, t)| format!("thread {i}: {}\n", t.iter().map(|a| match a {
            Act::Add(ids, w, b) => format!("add{} {:?} ({w:?})", if *b { " bytes" } else { "" }, ids.iter().map(|&i| plan.files[i].name()).collect::<Vec<_>>()),
            Act::Snap => "global()".into(),
            Act::Local(i) => format!("copy and add {}", plan.files[*i].name()),
        }).collect::<Vec<_>>().join("; "))).collect::<String>() + &super::descp::show(&plan.files)
    });
    for _ in 0..2 {
        once(c, &plan, first)?;
    }
    Ok(())
}

fn once(c: &mut Ctx, plan: &Plan, first: bool) -> R {
    let prefix = format!("c25x{}x{}", std::process::id(), UNIQUE.fetch_add(1, SeqCst));
    let files: Vec<FileDescriptorProto> = plan.files.iter().map(|f| named(f, &prefix)).collect();
    let names: BTreeSet<String> = files.iter().map(|f| f.name().to_string()).collect();
    let clock = AtomicU64::new(1);
    let tick = || clock.fetch_add(1, SeqCst);
    let gate = Barrier::new(plan.threads.len());
    if first {
        let r = no_panic("add_global_file_descriptor_proto", || DescriptorPool::add_global_file_descriptor_proto(files[plan.base].clone()))?;
        ensure!(r.is_ok(), "result", "the base was rejected: {}", super::descp::err_text(&r.unwrap_err()));
    }
    let run = |acts: &[Act]| -> Result<Vec<Done>, Fail> {
        gate.wait();
        let mut out = vec![];
        let base = Act::Add(vec![plan.base], Want::Ok, false);
        for a in (if first { None } else { Some(&base) }).into_iter().chain(acts) {
            let mut d = Done { act: a.clone(), from: tick(), to: 0, result: Ok(()), pool: None, view: None };
            match a {
                Act::Add(ids, _, bytes) => {
                    let set = FileDescriptorSet { file: ids.iter().map(|&i| files[i].clone()).collect() };
                    let r = no_panic("adding to the global pool", || {
                        if *bytes || ids.len() > 1 {
                            {
                                let b = set.encode_to_vec();
                                let cut = b.len() / 2;
                                DescriptorPool::decode_global_file_descriptor_set(prost::bytes::Buf::chain(&b[..cut], &b[cut..]))
                            }
                        } else {
                            DescriptorPool::add_global_file_descriptor_proto(set.file[0].clone())
                        }
                    })?;
                    d.to = tick();
                    d.result = r.map_err(|e| super::descp::err_text(&e));
                }
                Act::Snap => {
                    let p = no_panic("global", DescriptorPool::global)?;
                    d.to = tick();
                    d.view = Some(no_panic("use of global()", || view(&p, &prefix, &names))??);
                    d.pool = Some(p);
                }
                Act::Local(i) => {
                    let mut p = no_panic("global", DescriptorPool::global)?;
                    d.to = tick();
                    let r = no_panic("adding to a copy", || p.add_file_descriptor_proto(files[*i].clone()))?;
                    d.result = r.map_err(|e| super::descp::err_text(&e));
                    d.view = Some(no_panic("use of a copy", || view(&p, &prefix, &names))??);
                    d.pool = Some(p);
                }
            }
            out.push(d);
        }
        Ok(out)
    };
    let done: Vec<Vec<Done>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plan.threads.iter().map(|t| sc.spawn(|| run(t))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("panic", "a thread panicked"))).collect::<Vec<_>>()
    })
    .into_iter()
    .collect::<Result<_, _>>()?;

    let end_pool = no_panic("global", DescriptorPool::global)?;
    let end = no_panic("use of global()", || view(&end_pool, &prefix, &names))??;
    let all: Vec<(usize, &Done)> = done.iter().enumerate().flat_map(|(t, ds)| ds.iter().map(move |d| (t, d))).collect();
    let overlap = all.iter().any(|(t, a)| matches!(a.act, Act::Add(..)) && all.iter().any(|(u, b)| t != u && b.from < a.to && a.from < b.to));
    c.nontrivial |= overlap;
    c.label_if(overlap, "overlap");

    // what must and what cannot be in the pool
    let adds: Vec<(&Vec<usize>, &Want, &Done)> = all.iter().filter_map(|(_, d)| match &d.act {
        Act::Add(ids, w, _) => Some((ids, w, *d)),
        _ => None,
    }).collect();
    let mut wins: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
    for (ids, w, d) in &adds {
        let what = || format!("{:?} ({w:?})", ids.iter().map(|&i| files[i].name()).collect::<Vec<_>>());
        match w {
            Want::Ok | Want::SameName(_) => ensure!(d.result.is_ok(), "result", "adding {} failed: {:?}", what(), d.result),
            Want::Err => ensure!(d.result.is_err(), "result", "adding {} succeeded", what()),
            Want::Needs(x) => {
                let before = adds.iter().any(|(i, _, e)| i.contains(x) && e.result.is_ok() && e.to < d.from);
                let during = adds.iter().any(|(i, _, e)| i.contains(x) && e.from < d.to);
                ensure!(d.result.is_ok() || !before, "result", "adding {} failed although what it needs was there: {:?}", what(), d.result);
                ensure!(d.result.is_err() || during, "result", "adding {} succeeded before what it needs was there", what());
                c.label(if d.result.is_ok() { "dependent accepted" } else { "dependent rejected" });
            }
            Want::Rival(k) => {
                let e = wins.entry(*k).or_default();
                if d.result.is_ok() {
                    e.push(ids[0]);
                }
                c.label("rivals");
            }
        }
        if d.result.is_ok() {
            for &i in *ids {
                ensure!(end.text.contains_key(files[i].name()), "lost", "{} was accepted but is not in the global pool", files[i].name());
            }
        }
    }
    for (_, w) in &wins {
        // a message and a package of the same name can be there in either order, but two rivals cannot
        ensure!(w.len() == 1, "rivals", "{} of several conflicting files were accepted: {:?}", w.len(), w.iter().map(|&i| files[i].name()).collect::<Vec<_>>());
    }
    let added: BTreeSet<&str> = adds.iter().filter(|(_, _, d)| d.result.is_ok()).flat_map(|(ids, ..)| ids.iter().map(|&i| files[i].name())).chain([files[plan.base].name()]).collect();
    for n in end.text.keys() {
        ensure!(added.contains(n.as_str()), "stray", "{n} is in the global pool although no addition of it succeeded");
    }
    let want_exts = |v: &View| -> BTreeSet<u32> {
        files.iter().filter(|f| v.text.contains_key(f.name())).flat_map(|f| f.extension.iter().chain(f.message_type.iter().flat_map(|m| &m.extension))).map(|x| x.number() as u32).collect()
    };
    // the pools there were, in order
    let mut snaps: Vec<(&Done, &View)> = all.iter().filter(|(_, d)| matches!(d.act, Act::Snap)).map(|(_, d)| (*d, d.view.as_ref().unwrap())).collect();
    let last = Done { act: Act::Snap, from: u64::MAX - 1, to: u64::MAX, result: Ok(()), pool: Some(end_pool), view: None };
    snaps.push((&last, &end));
    for (d, v) in &snaps {
        ensure!(end.order.starts_with(&v.order), "order", "an earlier global() has {:?}, the last {:?}", v.order, end.order);
        for (n, t) in &v.text {
            ensure!(end.text.get(n) == Some(t), "changed", "{n} was described as\n{t}\nand is at the end described as\n{:?}", end.text.get(n));
        }
        ensure!(v.exts == want_exts(v), "extensions", "global() with files {:?} lists extensions {:?} of the base, expected {:?}", v.order, v.exts, want_exts(v));
        for (e, w) in &snaps {
            ensure!(d.to >= e.from || w.order.starts_with(&v.order), "backwards", "a later global() has {:?}, an earlier had {:?}", w.order, v.order);
        }
        for (ids, _, a) in &adds {
            let there = ids.iter().filter(|&&i| v.text.contains_key(files[i].name())).count();
            ensure!(there == 0 || there == ids.len(), "torn", "global() has {there} of the {} files of a set", ids.len());
            ensure!(a.result.is_err() || a.to >= d.from || there > 0, "late", "{} had been added but was not in the global pool", files[ids[0]].name());
            let by_then = adds.iter().any(|(i, _, b)| i.iter().any(|&i| files[i].name() == files[ids[0]].name()) && b.from < d.to) || (first && ids[0] == plan.base);
            ensure!(there == 0 || by_then, "early", "{} was in the global pool before it was added", files[ids[0]].name());
        }
        let again = no_panic("use of global()", || view(d.pool.as_ref().unwrap(), &prefix, &names))??;
        ensure!(again == **v, "snapshot", "a copy of the global pool changed from {v:?} to {again:?}");
        c.label_if(v.order.len() < end.order.len(), "snapshot of an intermediate state");
    }
    // the same names with other content: the description is one of those, and the same for all
    for f in files.iter().filter(|f| end.text.contains_key(f.name())) {
        let here: Vec<String> = end.text[f.name()].lines().filter_map(|l| l.strip_prefix("message ")).map(|x| x.to_string()).collect();
        let ok = files.iter().filter(|g| g.name() == f.name()).any(|g| g.message_type.iter().map(|m| format!("{}.{}", g.package(), m.name())).collect::<Vec<_>>() == here);
        ensure!(ok, "content", "{} has messages {here:?}", f.name());
    }
    // copies which were added to
    for (_, d) in all.iter() {
        if let Act::Local(i) = &d.act {
            let v = d.view.as_ref().unwrap();
            ensure!(d.result.is_ok() && v.text.contains_key(files[*i].name()), "local", "{} is not in the copy it was added to: {:?}", files[*i].name(), d.result);
            ensure!(v.exts == want_exts(v), "extensions", "a copy with files {:?} lists extensions {:?} of the base", v.order, v.exts);
            let again = no_panic("use of a copy", || view(d.pool.as_ref().unwrap(), &prefix, &names))??;
            ensure!(again == *v, "local", "a copy of the global pool changed from {v:?} to {again:?}");
            let mut rest = v.order.clone();
            rest.pop();
            ensure!(end.order.starts_with(&rest), "order", "a copy of the global pool has {:?}, the last {:?}", v.order, end.order);
            c.label("copy added to");
        }
    }
    Ok(())
}
