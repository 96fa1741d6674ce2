//! Concrete checks of htrpc's properties on the real code (see DESIGN.md).
//! usage: replay PROPERTY SEED quick|thorough   -> JSON report on stdout
#[macro_use]
extern crate serde_derive;
#[macro_use]
extern crate htrpc;
mod calls;
mod codec;
mod e2e;
mod embed;
mod gen;
mod net;
mod pool;
mod report;
mod route;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().expect("seed");
    let mut rep = report::Report::new(seed, a[3] == "thorough");
    net::install_hook();
    match a[1].as_str() {
        "C01" => codec::c01(&mut rep),
        "C02" => codec::c02(&mut rep),
        "C03" => codec::c03(&mut rep),
        "C04" => e2e::c04(&mut rep),
        "C05" => e2e::c05(&mut rep),
        "C06" => e2e::c06(&mut rep),
        "C07" => route::c07(&mut rep),
        "C08" => route::c08(&mut rep),
        "C09" => pool::c09(&mut rep),
        "C10" => pool::c10(&mut rep),
        "C11" => pool::c11(&mut rep),
        "C12" => calls::c12(&mut rep),
        "C13" => embed::c13(&mut rep),
        "C14" => embed::c14(&mut rep),
        "C15" => codec::c15(&mut rep),
        p => panic!("unknown property {}", p),
    }
    println!("{}", rep.to_json());
}
