#![allow(dead_code)]
//! Exhaustive checks that drive the whole of akasa-core, compiled from /repo's
//! working tree against the stand-in for its one unavailable dependency.
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c10;
mod c12;
mod c13;
mod c14;
mod c20;
mod c21;
mod c22;
mod c23;
mod c25;
mod c26;
mod c27;
mod c30;
mod clock;
mod broker;
mod hook;
mod model;
mod net;
#[path = "../../mc-wire/src/refscram.rs"]
mod refscram;
mod sim;
mod topics;
mod wire;
mod world;

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    match prop.as_str() {
        "C01" => run("C01", c01::run_c01),
        "C02" => run("C02", |c| {
            c01::run_c02_table(c);
            c02::run(c)
        }),
        "C03" => run("C03", |c| c03::table(c)),
        "C06" => run("C06", broker::c06),
        "C07" => run("C07", broker::c07),
        "C08" => run("C08", broker::c08),
        "C09" => run("C09", broker::c09),
        "C11" => run("C11", broker::c11),
        "C18" => run("C18", broker::c18),
        "C19" => run("C19", broker::c19),
        "C24" => run("C24", broker::c24),
        "C28" => run("C28", broker::c28),
        "C31" => run("C31", broker::c31),
        "C32" => run("C32", broker::c32),
        "C29" => run("C29", broker::c29),
        "C04" => run("C04", c04::run),
        "C13" => run("C13", c13::run),
        "C10" => run("C10", c10::run),
        "C12" => run("C12", c12::run),
        "C14" => run("C14", c14::run),
        "C21" => run("C21", c21::run),
        "C22" => run("C22", c22::run),
        "C23" => run("C23", c23::run),
        "C25" => run("C25", c25::run),
        "C26" => run("C26", c26::run),
        "C27" => run("C27", c27::run),
        "C30" => run("C30", c30::run),
        "C20" => run("C20", c20::run),
        "C05" => run("C05", c05::run),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    }
}

fn run(id: &'static str, f: impl Fn(&std::sync::Arc<mc_engine::Check>)) {
    mc_engine::run(id, f)
}
