mod desc;
mod engine;
mod json;
mod model;
mod props;
mod src;
mod text;
mod value;
mod wire;
mod wkt;

fn main() {
    engine::main(props::ALL)
}
