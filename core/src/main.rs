#![allow(incomplete_features)]
#![feature(generic_const_exprs)]
mod comm;
mod containers;
mod files;
mod geometry;
mod keys;
mod math;
mod options;
mod support;
use support::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let c = Ctx {
        seed: a[3].parse().unwrap(),
        thorough: a[2] == "thorough",
        out: a[4].clone(),
    };
    install_panic_hook();
    let rep = match a[1].as_str() {
        "input" => files::input(&c),
        "output" => files::output(&c),
        "keys" => keys::keys(&c),
        "signs" => math::signs(&c),
        "solvers" => math::solvers(&c),
        "data_by_rank" => containers::data_by_rank(&c),
        "arenas" => containers::arenas(&c),
        "counters" => containers::counters(&c),
        "node_index" => containers::node_index(&c),
        "extents" => geometry::extents(&c),
        "directions" => geometry::directions(&c),
        "exchanges" => comm::run(&c, comm::exchanges),
        "collectives" => comm::run(&c, comm::collectives),
        "transport" => comm::run(&c, comm::transport),
        "options" => options::options(&c),
        x => panic!("unknown monitor {x}"),
    };
    rep.write(&c.out);
}
