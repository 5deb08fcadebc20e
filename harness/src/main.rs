mod capi;
mod cli;
mod ctx;
mod delaunay;
mod gen;
mod geom;
mod hull;
mod images;
mod model;
mod palettes;
#[cfg(feature = "raw")]
mod raw;
mod rng;

use ctx::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_hook();
    if a[1] == "dump" {
        // mon dump <seed> <file> <count>
        let mut ctx = Ctx::new("C13", a[2].parse().unwrap(), false);
        capi::dump(&mut ctx, &a[3], a[4].parse().unwrap());
        return;
    }
    // mon <property> <tier> <seed> <start> <stride> <end> <budget seconds>
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let mut ctx = Ctx::new(&a[1], num(3), a[2] == "thorough");
    let plan = Plan { start: num(4), stride: num(5), end: num(6), budget_s: a[7].parse().unwrap() };
    let f: fn(&mut Ctx) = match a[1].as_str() {
        "C01" => hull::c01,
        "C02" => hull::c02,
        "C03" => delaunay::c03,
        "C04" => delaunay::c04,
        #[cfg(feature = "raw")]
        "C05" => raw::c05,
        "C06" => images::c06,
        "C07" => images::c07,
        "C08" => images::c08,
        "C09" => images::c09,
        "C10" => palettes::c10,
        "C11" => palettes::c11,
        "C12" => palettes::c12,
        "C13" => capi::c13,
        "C15" => images::c15,
        "C16" => images::c16,
        "C17" => images::c17,
        "C18" => cli::c18,
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    };
    run(&mut ctx, &plan, &mut |c| f(c));
}
