mod m01;
mod m02;
mod prog;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("M01") => m01::run(),
        Some("M02") => m02::run(),
        o => panic!("unknown property {o:?}"),
    }
}
