//! 32-bit, no_std model checker: answers jobs given on stdin.
//!
//! A line `PROP TIER SCENARIO KEEP c/n c/n ..` asks for all executions that start with these choices.
//! The answer is one line, see `eng::lane`.
#![no_std]
#![no_main]
#[macro_use]
extern crate alloc;
#[macro_use]
#[allow(dead_code)]
mod eng;
use alloc::string::String;
use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};
use core::cell::UnsafeCell;

#[cfg(target_arch = "x86")]
unsafe fn sys(n: u32, a: u32, b: u32, c: u32, d: u32, e: u32) -> i32 {
    let args = [n, a, b, c, d, e];
    let r: i32;
    core::arch::asm!(
        "push esi",
        "push ebx",
        "push ebp",
        "mov ebx, [eax + 4]",
        "mov ecx, [eax + 8]",
        "mov edx, [eax + 12]",
        "mov esi, [eax + 16]",
        "mov edi, [eax + 20]",
        "xor ebp, ebp",
        "mov eax, [eax]",
        "int 0x80",
        "pop ebp",
        "pop ebx",
        "pop esi",
        inout("eax") args.as_ptr() => r,
        out("ecx") _, out("edx") _, out("edi") _,
    );
    r
}
#[cfg(not(target_arch = "x86"))]
unsafe fn sys(_: u32, _: u32, _: u32, _: u32, _: u32, _: u32) -> i32 {
    -1
}

/// Size classes (powers of two) with free lists; large blocks are mapped and unmapped.
struct Pool(UnsafeCell<([usize; 32], usize, usize)>);
unsafe impl Sync for Pool {}
#[global_allocator]
static POOL: Pool = Pool(UnsafeCell::new(([0; 32], 0, 0)));
const CHUNK: usize = 4 << 20;
unsafe fn map(n: usize) -> usize {
    let r = sys(192, 0, n as u32, 3, 0x22, u32::MAX);
    if (r as u32) > 0xffff_f000 {
        0
    } else {
        r as u32 as usize
    }
}
unsafe impl GlobalAlloc for Pool {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = l.size().max(l.align()).max(8).next_power_of_two();
        if n > CHUNK / 4 {
            return map(n) as *mut u8;
        }
        let st = &mut *self.0.get();
        let k = n.trailing_zeros() as usize;
        if st.0[k] != 0 {
            let p = st.0[k];
            st.0[k] = *(p as *const usize);
            return p as *mut u8;
        }
        let at = (st.1 + n - 1) & !(n - 1);
        if st.1 == 0 || at + n > st.2 {
            let m = map(CHUNK);
            if m == 0 {
                return core::ptr::null_mut();
            }
            st.1 = m;
            st.2 = m + CHUNK;
            let at = (st.1 + n - 1) & !(n - 1);
            st.1 = at + n;
            return at as *mut u8;
        }
        st.1 = at + n;
        at as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = l.size().max(l.align()).max(8).next_power_of_two();
        if n > CHUNK / 4 {
            sys(91, p as u32, n as u32, 0, 0, 0);
            return;
        }
        let st = &mut *self.0.get();
        let k = n.trailing_zeros() as usize;
        *(p as *mut usize) = st.0[k];
        st.0[k] = p as usize;
    }
}

fn put(fd: u32, s: &[u8]) {
    let mut s = s;
    while !s.is_empty() {
        let n = unsafe { sys(4, fd, s.as_ptr() as usize as u32, s.len() as u32, 0, 0) };
        if n <= 0 {
            exit(3)
        }
        s = &s[n as usize..];
    }
}
fn exit(c: u32) -> ! {
    loop {
        unsafe {
            sys(252, c, 0, 0, 0, 0);
        }
    }
}
#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    put(2, format!("{i}\n").as_bytes());
    exit(101)
}

fn line(buf: &mut Vec<u8>) -> Option<String> {
    loop {
        if let Some(i) = buf.iter().position(|b| *b == b'\n') {
            let rest = buf.split_off(i + 1);
            let l = core::mem::replace(buf, rest);
            return Some(String::from_utf8_lossy(&l[..i]).into_owned());
        }
        let mut b = [0u8; 4096];
        let n = unsafe { sys(3, 0, b.as_mut_ptr() as usize as u32, 4096, 0, 0) };
        if n <= 0 {
            return None;
        }
        buf.extend_from_slice(&b[..n as usize]);
    }
}

#[cfg(target_arch = "x86")]
core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and esp, -16", "call bare_main", "ud2");

#[no_mangle]
extern "C" fn bare_main() -> ! {
    let mut buf = Vec::new();
    let mut cache = eng::lane::Cache::default();
    while let Some(l) = line(&mut buf) {
        let mut a = eng::lane::answer(&mut cache, &l);
        a.push('\n');
        put(1, a.as_bytes());
    }
    exit(0)
}
