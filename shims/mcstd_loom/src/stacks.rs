//! Loom maps and unmaps a stack per model thread and execution, which serialises explorers that
//! share an address space. Stack mappings are kept and reused instead, per explorer thread.
use core::ffi::{c_int, c_long, c_void};
use std::cell::RefCell;

const STACK: c_int = 0x2 | 0x20 | 0x20000; // private, anonymous, stack
const NR_MMAP: c_long = 9;
const NR_MPROTECT: c_long = 10;
const NR_MUNMAP: c_long = 11;

unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
}

#[derive(Default)]
struct Pool {
    free: Vec<(usize, usize)>,
    /// Mappings handed out, and whether their lowest page is protected already.
    live: Vec<(usize, usize, bool)>,
}
impl Drop for Pool {
    fn drop(&mut self) {
        for (p, n) in &self.free {
            unsafe { syscall(NR_MUNMAP, *p, *n) };
        }
    }
}
thread_local! {
    static POOL: RefCell<Pool> = const { RefCell::new(Pool { free: Vec::new(), live: Vec::new() }) };
}

#[unsafe(no_mangle)]
unsafe extern "C" fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    let fresh = || unsafe { syscall(NR_MMAP, addr, len, prot as c_long, flags as c_long, fd as c_long, off) as *mut c_void };
    if addr.is_null() && flags == STACK && fd == -1 {
        let r = POOL.try_with(|p| {
            let mut p = p.borrow_mut();
            if let Some(i) = p.free.iter().rposition(|x| x.1 == len) {
                let x = p.free.swap_remove(i);
                p.live.push((x.0, x.1, true));
                return x.0 as *mut c_void;
            }
            let r = fresh();
            if r as isize != -1 {
                p.live.push((r as usize, len, false));
            }
            r
        });
        if let Ok(r) = r {
            return r;
        }
    }
    fresh()
}

#[unsafe(no_mangle)]
unsafe extern "C" fn mprotect(addr: *mut c_void, len: usize, prot: c_int) -> c_int {
    let known = POOL.try_with(|p| {
        let mut p = p.borrow_mut();
        match p.live.iter_mut().find(|x| x.0 == addr as usize) {
            Some(x) => std::mem::replace(&mut x.2, true),
            None => false,
        }
    });
    if known == Ok(true) && prot == 0 {
        return 0;
    }
    unsafe { syscall(NR_MPROTECT, addr, len, prot as c_long) as c_int }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn munmap(addr: *mut c_void, len: usize) -> c_int {
    let kept = POOL.try_with(|p| {
        let mut p = p.borrow_mut();
        match p.live.iter().position(|x| x.0 == addr as usize && x.1 == len) {
            Some(i) => {
                let x = p.live.swap_remove(i);
                let keep = x.2 && p.free.len() < 64;
                if keep {
                    p.free.push((x.0, x.1));
                }
                keep
            }
            None => false,
        }
    });
    if kept == Ok(true) {
        return 0;
    }
    unsafe { syscall(NR_MUNMAP, addr, len) as c_int }
}
