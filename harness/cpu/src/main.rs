mod c04;
mod fx;
mod isa;
mod p01;
mod p02;
mod p03;
mod p04;
mod rig;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("P01") => p01::run(),
        Some("P02") => p02::run(),
        Some("P03") => p03::run(),
        Some("P04") => p04::run(),
        Some("C04") => c04::run(),
        Some("P05") => c04::run_gas(),
        o => panic!("unknown property {o:?}"),
    }
}
