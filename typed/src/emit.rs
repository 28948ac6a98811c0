//! Writes the schemas in gen/ (done once, during development).
use crate::model::*;
use crate::src::Src;
use crate::value::RVal;
use prost::Message as _;

fn rename(m: &mut Model) {
    let mut packages: Vec<String> = vec![];
    for f in m.files.iter_mut().filter(|f| !f.wkt && !f.package.is_empty()) {
        let k = packages.iter().position(|p| *p == f.package).unwrap_or_else(|| {
            packages.push(f.package.clone());
            packages.len() - 1
        });
        f.package = ["aa", "aa.bb", "cc.dd.ee"][k % 3].into();
    }
    let user: Vec<usize> = (0..m.msgs.len()).filter(|&i| !m.files[m.msgs[i].file].wkt).collect();
    let groups: Vec<usize> = m.msgs.iter().flat_map(|x| &x.fields).chain(m.exts.iter().map(|x| &x.f)).filter_map(|f| if let Ty::Group(g) = f.ty { Some(g) } else { None }).collect();
    for e in 0..m.enums.len() {
        if m.files[m.enums[e].file].wkt {
            continue;
        }
        m.enums[e].name = format!("Enum{e}");
        for (j, v) in m.enums[e].values.iter_mut().enumerate() {
            v.0 = format!("E{e}_VAL{j}");
        }
        m.enums[e].reserved_names.clear();
    }
    for &i in &user {
        if !m.msgs[i].map_entry {
            m.msgs[i].name = format!("Msg{i}");
        }
    }
    let enums = m.enums.clone();
    let fix = |f: &mut FieldDef, prefix: &str| {
        f.name = match f.ty {
            Ty::Group(g) if groups.contains(&g) => format!("msg{g}"),
            _ => format!("{prefix}{}", f.number),
        };
        f.json_name = None;
        // prost-build takes a repeated proto3 field with any options to be unpacked
        f.bare_options = false;
        f.deprecated = None;
        if let (Some((RVal::Enum(n), t)), Ty::Enum(e)) = (&mut f.default, f.ty) {
            *t = enums[e].values.iter().find(|v| v.1 == *n).unwrap().0.clone();
        }
    };
    for &i in &user {
        if m.msgs[i].map_entry {
            continue;
        }
        let mut x = m.msgs[i].clone();
        for f in &mut x.fields {
            fix(f, "f");
            if m.is_map(f) {
                let e = f.ty.msg().unwrap();
                m.msgs[e].name = map_entry_name(&f.name);
            }
            if let Some(o) = f.oneof {
                x.oneofs[o].name = if x.oneofs[o].synthetic { format!("_{}", f.name) } else { format!("one{o}") };
            }
        }
        x.reserved_names.clear();
        m.msgs[i] = x;
    }
    for i in 0..m.exts.len() {
        let mut x = m.exts[i].clone();
        fix(&mut x.f, &format!("x{i}_"));
        m.exts[i] = x;
    }
    fn full(m: &Model, parent: Option<usize>, file: usize, name: &str) -> String {
        let scope = match parent {
            Some(p) => full(m, m.msgs[p].parent, file, &m.msgs[p].name),
            None => m.files[file].package.clone(),
        };
        if scope.is_empty() { name.to_string() } else { format!("{scope}.{name}") }
    }
    for &i in &user {
        m.msgs[i].full_name = full(m, m.msgs[i].parent, m.msgs[i].file, &m.msgs[i].name);
    }
    for i in 0..m.enums.len() {
        if !m.files[m.enums[i].file].wkt {
            m.enums[i].full_name = full(m, m.enums[i].parent, m.enums[i].file, &m.enums[i].name);
        }
    }
    for i in 0..m.exts.len() {
        m.exts[i].full_name = full(m, m.exts[i].parent, m.exts[i].file, &m.exts[i].f.name);
    }
}

pub fn emit(n: u64, dir: &std::path::Path) {
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("../std.fds"), prost_reflect::DescriptorPool::global().encode_to_vec()).unwrap();
    for i in 0..n {
        let mut s = Src::random(1000 + i);
        let cfg = Cfg { wkt: i % 3 == 2, max_files: 3, max_msgs: 6, max_fields: 12, odd_json: false, ..Default::default() };
        let mut m = gen_model(&mut s, &cfg);
        rename(&mut m);
        let mut fds = m.fds();
        if cfg.wkt {
            // only the files in use
            let text: String = fds.file.iter().filter(|f| f.package() != "google.protobuf").map(|f| format!("{f:?}")).collect();
            let mut keep: Vec<String> = vec![];
            for f in m.files.iter().enumerate().filter(|f| f.1.wkt) {
                if m.msgs.iter().filter(|x| x.file == f.0).any(|x| text.contains(&format!(".{}\"", x.full_name))) || m.enums.iter().filter(|x| x.file == f.0).any(|x| text.contains(&format!(".{}\"", x.full_name))) {
                    keep.push(f.1.name.clone());
                }
            }
            loop {
                let more: Vec<String> = fds.file.iter().filter(|f| keep.contains(&f.name.clone().unwrap())).flat_map(|f| f.dependency.clone()).filter(|d| !keep.contains(d)).collect();
                if more.is_empty() {
                    break;
                }
                keep.extend(more);
            }
            fds.file.retain(|f| f.package() != "google.protobuf" || keep.contains(&f.name.clone().unwrap()));
            for f in &mut fds.file {
                let old = f.dependency.clone();
                let publ: Vec<String> = f.public_dependency.iter().map(|p| old[*p as usize].clone()).collect();
                f.dependency.retain(|d| !d.starts_with("google/") || keep.contains(d));
                f.public_dependency = publ.iter().filter_map(|p| f.dependency.iter().position(|d| d == p)).map(|p| p as i32).collect();
            }
        }
        std::fs::write(dir.join(format!("s{i:02}.fds")), fds.encode_to_vec()).unwrap();
    }
}
