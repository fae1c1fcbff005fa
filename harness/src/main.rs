mod engine;
mod gen;
mod model;
mod props;
mod run;

fn main() {
    engine::main(&props::all());
}
