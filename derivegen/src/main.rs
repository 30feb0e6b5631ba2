mod gen_types;
mod props;
fn main() { std::process::exit(vh::engine::main_with(&props::props())) }
