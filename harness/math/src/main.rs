mod s01;
mod s02;
mod s03;
mod s04;
mod s05;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("S01") => s01::run(),
        Some("S02") => s02::run(),
        Some("S03") => s03::run(),
        Some("S04") => s04::run(),
        Some("S05") => s05::run(),
        o => panic!("unknown property {o:?}"),
    }
}
