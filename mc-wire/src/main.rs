//! Exhaustive checks of the modules of akasa-core that only depend on bytes in
//! and bytes out: the SCRAM state machines and the PROXY v2 header parser.
//! Both are compiled in place from /repo's working tree.
#![allow(dead_code)]

pub mod protocols {
    #[path = "/repo/akasa-core/src/protocols/scram/mod.rs"]
    pub mod scram;
}
pub mod server {
    #[path = "/repo/akasa-core/src/server/proxy.rs"]
    pub mod proxy;
}

mod c15;
mod c16;
mod c17;
mod refscram;

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    match prop.as_str() {
        "C15" => mc_engine::run("C15", c15::run),
        "C16" => mc_engine::run("C16", c16::run),
        "C17" => mc_engine::run("C17", c17::run),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
}
