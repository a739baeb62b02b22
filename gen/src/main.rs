//! gen SCHEMADIR OUTDIR: generates Rust code (crate root `lib.rs`) for all schemas in a directory.
use std::path::Path;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut model = zserio_rs_build::Model::from_filesystem(Path::new(&a[1]));
    model.evaluate();
    zserio_rs_build::generate_model(&mut model, Path::new(&a[2]), "");
}
