pub mod chain;
pub mod driver;
pub mod gen;
pub mod machine;
pub mod model;
pub mod oracle;
pub mod plan;
pub mod probe;
pub mod refmath;
pub mod run;
pub mod sdk;
pub mod types;
pub mod vft;
pub mod world;

pub fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut o = std::collections::BTreeMap::new();
    let mut i = 1;
    while i + 1 < a.len() {
        o.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone());
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let r = match a.first().map(|s| s.as_str()) {
        Some("check") => driver::check(&o),
        Some("replay") => driver::replay(&o),
        Some("sweep") => driver::sweep(&o),
        Some("det") => driver::det(&o),
        _ => Err("usage: varasim check|replay|sweep|det --wasm FILE ...".into()),
    };
    match r {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            eprintln!("varasim: {e}");
            std::process::exit(2)
        }
    }
}
