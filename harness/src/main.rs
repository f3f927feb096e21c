#![allow(incomplete_features)]
#![feature(generic_const_exprs, adt_const_params)]
mod app;
mod cartesian;
mod chemistry;
mod cosmology;
mod delaunay;
mod grid;
mod io;
mod messages;
mod parameters;
mod polyhedron;
mod schedule;
mod sim;
mod space;
mod sweep;
mod timesteps;
mod units;
mod voronoi;
#[path = "../../core/src/support.rs"]
mod support;
use support::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let c = Ctx {
        seed: a[3].parse().unwrap(),
        thorough: a[2] == "thorough",
        out: a[4].clone(),
    };
    install_panic_hook();
    match a[1].as_str() {
        "grid" => sim::run(&c, grid::grid),
        "domain" => sim::run(&c, grid::domain),
        "sweep" => sim::run(&c, sweep::sweep),
        "messages" => sim::run(&c, messages::messages),
        "rotated" => sim::run(&c, sweep::rotated),
        "cartesian" => sim::run(&c, cartesian::cartesian),
        "io" => sim::run(&c, io::io),
        "schedule" => sim::run(&c, schedule::schedule),
        _ => (),
    }
    let rep = match a[1].as_str() {
        "app" => app::app(&c),
        "series" => app::series(&c),
        "delaunay" => delaunay::delaunay(&c),
        "parameters" => parameters::parameters(&c),
        "cosmology" => cosmology::cosmology(&c),
        "units" => units::units(&c),
        "boxes" => space::boxes(&c),
        "chemistry" => chemistry::chemistry(&c),
        "timesteps" => timesteps::timesteps(&c),
        "voronoi" => voronoi::voronoi(&c),
        "search" => space::search(&c),
        x => panic!("unknown monitor {x}"),
    };
    rep.write(&c.out);
}
