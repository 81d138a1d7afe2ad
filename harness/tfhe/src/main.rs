mod u;
mod t01;
mod t02;
mod t03;
mod t04;
mod t05;
mod t06;
mod t07;
mod t08;
mod t09;
mod t10;
mod t11;
mod t12;
mod t13;
mod t14;
mod t15;
mod ops;

/// The system allocator, counting what each thread does.
struct Count;
thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static WIDE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Bytes this thread has allocated less those it has freed, and how many of its allocations were aligned like
/// scratch buffers.
pub fn allocated() -> (i64, u64) { (LIVE.get(), WIDE.get()) }
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = LIVE.try_with(|x| x.set(x.get() + l.size() as i64));
        if l.align() >= 64 { let _ = WIDE.try_with(|x| x.set(x.get() + 1)); }
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        unsafe { std::alloc::System.dealloc(p, l) }
    }
}
#[global_allocator]
static ALLOC: Count = Count;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("T01") => t01::run(),
        Some("T02") => t02::run(),
        Some("T03") => t03::run(),
        Some("T04") => t04::run(),
        Some("T05") => t05::run(),
        Some("T05-child") => t05::child(&std::env::args().skip(2).collect::<Vec<_>>()),
        Some("T06") => t06::run(),
        Some("T07") => t07::run(),
        Some("T08") => t08::run(),
        Some("T09") => t09::run(),
        Some("T10") => t10::run(),
        Some("T11") => t11::run(),
        Some("T12") => t12::run(),
        Some("T13") => t13::run(),
        Some("T14") => t14::run(),
        Some("T15") => t15::run(),
        o => panic!("unknown property {o:?}"),
    }
}
