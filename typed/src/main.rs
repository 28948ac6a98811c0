//! The check of C04: messages generated by prost-build against the same messages as dynamic ones.
#![allow(dead_code)]
#[path = "../../harness/src/desc.rs"]
mod desc;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/json.rs"]
mod json;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/src.rs"]
mod src;
#[path = "../../harness/src/text.rs"]
mod text;
#[path = "../../harness/src/value.rs"]
mod value;
#[path = "../../harness/src/wire.rs"]
mod wire;
#[path = "../../harness/src/wkt.rs"]
mod wkt;

mod emit;
mod typed;
include!(concat!(env!("OUT_DIR"), "/types.rs"));

/// The pools of the generated schemas.
pub fn pool(i: usize) -> prost_reflect::DescriptorPool {
    use std::sync::OnceLock;
    static P: OnceLock<Vec<prost_reflect::DescriptorPool>> = OnceLock::new();
    P.get_or_init(|| GENERATED.iter().map(|b| prost_reflect::DescriptorPool::decode(*b).expect("a valid schema")).collect())[i].clone()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "emit") {
        return emit::emit(a[2].parse().unwrap(), std::path::Path::new(&a[3]));
    }
    engine::main(&[typed::C04]);
}
