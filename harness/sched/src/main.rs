mod c03;
mod explore;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("C03") => c03::run(),
        o => panic!("unknown property {o:?}"),
    }
}
