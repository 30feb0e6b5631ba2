fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "serve").unwrap_or(false) { std::process::exit(vh::diff::serve(vh::types::registry, a.get(2).map(|x| x == "logger").unwrap_or(false))) }
    std::process::exit(vh::engine::main_with(&vh::props::props()))
}
