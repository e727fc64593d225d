//! lav: generated-input checks of the latex-ast crate.

mod alloc;
mod cmp;
mod convert;
mod cov;
mod ctx;
mod dict;
mod engine;
mod equality;
mod faults;
mod gen;
mod model;
mod parts;
mod props;
mod refp;
mod relations;
mod rename;
mod src;
mod values;
mod walk;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["run", id] => match props::get(id) {
            Some(p) => engine::parent(&p),
            None => 2,
        },
        ["child", id, dir, shard] => match props::get(id) {
            Some(p) => engine::child(&p, std::path::Path::new(dir), shard.parse().unwrap_or(0)),
            None => 2,
        },
        ["replay", file] => engine::replay(&props::get, std::path::Path::new(file), 120),
        ["replay", file, cpu] => engine::replay(
            &props::get,
            std::path::Path::new(file),
            cpu.parse().unwrap_or(120),
        ),
        ["list"] => {
            for id in props::IDS {
                println!("{id}");
            }
            0
        }
        _ => {
            eprintln!("usage: lav run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
