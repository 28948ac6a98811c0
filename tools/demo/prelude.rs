#![allow(dead_code, unused_imports)]
use prost::Message;
use prost_reflect::*;
use prost_types::{FileDescriptorProto, FileDescriptorSet};

/// The file descriptor written in text.
fn file(text: &str) -> FileDescriptorProto {
    let desc = DescriptorPool::global().get_message_by_name("google.protobuf.FileDescriptorProto").unwrap();
    DynamicMessage::parse_text_format(desc, text).unwrap().transcode_to().unwrap()
}
fn pool(files: &[&str]) -> DescriptorPool {
    let mut pool = DescriptorPool::new();
    for f in files {
        pool.add_file_descriptor_proto(file(f)).unwrap();
    }
    pool
}
fn new(pool: &DescriptorPool, name: &str) -> DynamicMessage {
    DynamicMessage::new(pool.get_message_by_name(name).unwrap())
}
