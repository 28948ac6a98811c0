//! Generates the typed messages of the check with prost-reflect-build, and a table of them.
use prost_types::{DescriptorProto, FileDescriptorSet};
use std::fmt::Write as _;
use std::{env, fs, path::Path};

fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_ascii_uppercase() && i > 0 {
            o.push('_');
        }
        o.push(c.to_ascii_lowercase());
    }
    o
}
/// Rust path and full name of every message.
fn walk(m: &DescriptorProto, path: &str, full: &str, out: &mut Vec<(String, String)>) {
    if m.options.as_ref().is_some_and(|o| o.map_entry()) {
        return;
    }
    let full = if full.is_empty() { m.name().to_string() } else { format!("{full}.{}", m.name()) };
    out.push((format!("{path}::{}", m.name()), full.clone()));
    for n in &m.nested_type {
        walk(n, &format!("{path}::{}", snake(m.name())), &full, out);
    }
}
fn table(fds: &FileDescriptorSet, root: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for f in fds.file.iter().filter(|f| f.package() != "google.protobuf") {
        let path = f.package().split('.').filter(|p| !p.is_empty()).fold(root.to_string(), |a, p| format!("{a}::{p}"));
        for m in &f.message_type {
            walk(m, &path, f.package(), &mut out);
        }
    }
    out
}

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let out = Path::new(&out);
    println!("cargo:rerun-if-changed=protos");
    println!("cargo:rerun-if-changed=gen");
    let mut code = String::new();
    let mut tables = vec![];
    // written by hand, through protoc; bytes are registered in the global pool
    let dir = out.join("hand");
    fs::create_dir_all(&dir).unwrap();
    let mut c = prost_build::Config::new();
    c.out_dir(&dir).include_file("mod.rs").bytes([".typed.p3.Maps", ".typed.p3.Choice", ".typed.p2.Lists"]).btree_map([".typed.p3.Maps.q", ".typed.p3.Tree"]);
    prost_reflect_build::Builder::new()
        .file_descriptor_set_path(dir.join("fds.bin"))
        .file_descriptor_set_bytes("crate::HAND")
        .compile_protos_with_config(c, &["protos/p3.proto", "protos/sub.proto", "protos/p2.proto", "protos/nopkg.proto"], &["protos"])
        .unwrap();
    let fds: FileDescriptorSet = prost::Message::decode(&fs::read(dir.join("fds.bin")).unwrap()[..]).unwrap();
    writeln!(code, "pub mod hand {{ include!({:?}); }}", dir.join("mod.rs")).unwrap();
    writeln!(code, "pub static HAND: &[u8] = include_bytes!({:?});", dir.join("fds.bin")).unwrap();
    tables.push(("HAND".to_string(), table(&fds, "hand")));
    // generated schemas, each in a pool of its own
    let mut names: Vec<_> = fs::read_dir("gen").unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "fds")).collect();
    names.sort();
    for (i, n) in names.iter().enumerate() {
        let dir = out.join(format!("g{i}"));
        fs::create_dir_all(&dir).unwrap();
        fs::copy(n, dir.join("fds.bin")).unwrap();
        let fds: FileDescriptorSet = prost::Message::decode(&fs::read(n).unwrap()[..]).unwrap();
        let mut c = prost_build::Config::new();
        c.out_dir(&dir).include_file("mod.rs").skip_protoc_run();
        let mut b = prost_reflect_build::Builder::new();
        b.file_descriptor_set_path(dir.join("fds.bin")).descriptor_pool(format!("crate::pool({i})"));
        let files: Vec<String> = fds.file.iter().filter(|f| f.package() != "google.protobuf").map(|f| f.name().to_string()).collect();
        b.compile_protos_with_config(c, &files, &["."]).unwrap();
        writeln!(code, "pub mod g{i} {{ include!({:?}); }}", dir.join("mod.rs")).unwrap();
        writeln!(code, "pub static G{i}: &[u8] = include_bytes!({:?});", n.canonicalize().unwrap()).unwrap();
        tables.push((format!("G{i}"), table(&fds, &format!("g{i}"))));
    }
    writeln!(code, "pub static GENERATED: &[&[u8]] = &[{}];", (0..names.len()).map(|i| format!("G{i}")).collect::<Vec<_>>().join(", ")).unwrap();
    writeln!(code, "pub static TYPES: &[(usize, &str, crate::typed::Run)] = &[").unwrap();
    for (i, (_, t)) in tables.iter().enumerate() {
        for (path, full) in t {
            writeln!(code, "    ({i}, {full:?}, crate::typed::one::<{path}>),").unwrap();
        }
    }
    writeln!(code, "];").unwrap();
    fs::write(out.join("types.rs"), code).unwrap();
}
