mod access;
mod cfgtab;
mod cases;
mod cfgv;
mod decl;
mod dict;
mod driver;
mod emit;
mod gen;
mod gens;
mod guide;
mod json;
mod model;
mod panics;
mod props;
mod spec;
mod tables;
mod val;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into());
    driver::install_panic_hook();
    if args.get(1).map(|s| s.as_str()) == Some("blame") {
        std::process::exit(driver::blame(&args[2], &root));
    }
    if args.get(1).map(|s| s.as_str()) == Some("words") {
        dict::count().iter().for_each(|(v, n)| println!("{v} {n}"));
        return;
    }
    dict::load(&root);
    if args.get(1).map(|s| s.as_str()) == Some("guided") {
        std::process::exit(driver::guided(&args[2], &root));
    }
    let (prop, replay) = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let t = std::fs::read_to_string(args.get(2).expect("replay FILE")).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&t).expect("replay file");
            (v["property"].as_str().unwrap().to_string(), Some(v))
        },
        Some(p) => (p.to_string(), None),
        None => {
            eprintln!("usage: vh PROPERTY | replay FILE");
            std::process::exit(2);
        },
    };
    driver::clear_trace();
    let mut c = driver::Ctx::new(&prop, &root, replay);
    if !props::run(&prop, &mut c) {
        eprintln!("no property {prop}");
        std::process::exit(2);
    }
    std::process::exit(c.finish());
}
