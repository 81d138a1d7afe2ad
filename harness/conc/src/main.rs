mod c01;
mod c02;
mod explore;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C01") => c01::run(),
        Some("C02") => c02::run(),
        o => panic!("unknown property {o:?}"),
    }
}
