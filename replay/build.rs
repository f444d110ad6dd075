//! Regenerates the metadata types from /repo's .proto, as /repo's build does.
fn main() {
    let proto = std::env::var("VX_PROTO").unwrap_or_else(|_| "/repo/src/store/segment_metadata.proto".into());
    let dir = std::path::Path::new(&proto).parent().unwrap().to_path_buf();
    println!("cargo:rerun-if-env-changed=VX_PROTO");
    println!("cargo:rerun-if-changed={}", proto);
    prost_build::Config::new().compile_protos(&[proto.as_str()], &[dir.to_str().unwrap()]).expect("protoc");
}
