mod fx;
mod plain;
mod r01;
mod r02;
mod r03;
mod r04;

#[global_allocator]
static METER: r03::Meter = r03::Meter;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("R01") => r01::run(),
        Some("R02") => r02::run(),
        Some("R03") => r03::run(),
        Some("R04") => r04::run(),
        o => panic!("unknown property {o:?}"),
    }
}
