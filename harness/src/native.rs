//! Native back end of the nd interface: inputs and heap addresses come from the engine's counterexample (or path
//! witness), and what happens is logged for comparison with what the engine predicted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn _exit(c: i32) -> !;
}
const MAXB: usize = 16384;
#[derive(Clone, Copy)]
struct Block { addr: usize, size: usize, align: usize, live: bool }
pub struct Ctx {
    active: bool,
    quiet: bool,
    nds: [u64; 8192], nn: usize, ni: usize,
    addrs: [u64; 8192], an: usize,
    pages: [usize; MAXB], pn: usize,
    blocks: [Block; MAXB], bn: usize,
    allocs: u64, last: (u64, u64, u64), mode: u8,
    bump: usize,
    counted: bool,
}
static mut C: Ctx = Ctx {
    active: false, quiet: false, nds: [0; 8192], nn: 0, ni: 0, addrs: [0; 8192], an: 0, pages: [0; MAXB], pn: 0,
    blocks: [Block { addr: 0, size: 0, align: 0, live: false }; MAXB], bn: 0, allocs: 0, last: (0, 0, 0), mode: 0,
    bump: 0x2100_0000_0000, counted: false,
};
fn c() -> &'static mut Ctx { unsafe { &mut *core::ptr::addr_of_mut!(C) } }

pub fn event(s: &str) {
    let q = core::mem::replace(&mut c().quiet, true);
    let mut o = std::io::stdout();
    let _ = writeln!(o, "  {}", s);
    let _ = o.flush();
    c().quiet = q;
}
fn stop(s: &str) -> ! {
    event(s);
    if cfg!(miri) { std::process::exit(0) }
    unsafe { _exit(0) }
}
pub fn start(nds: &[u64], addrs: &[u64]) {
    let x = c();
    x.nds[..nds.len()].copy_from_slice(nds);
    x.nn = nds.len();
    x.addrs[..addrs.len()].copy_from_slice(addrs);
    x.an = addrs.len();
    x.active = true;
}
pub fn finish() { c().active = false; }

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let x = c();
        if !x.active || x.quiet || std::thread::panicking() { return System.alloc(l); }
        let k = x.allocs as usize;
        x.allocs += 1;
        if x.mode == 3 { return core::ptr::null_mut(); }
        if k < x.an && x.addrs[k] == 0 { return core::ptr::null_mut(); }
        let p = if cfg!(miri) || x.bn >= MAXB {
            System.alloc(l)
        } else if k < x.an {
            place(x.addrs[k] as usize, l.size())
        } else {
            x.bump = (x.bump + l.align().max(4096) - 1) / l.align().max(4096) * l.align().max(4096);
            let a = x.bump;
            x.bump += l.size() + 8192;
            place(a, l.size())
        };
        if !cfg!(miri) { core::ptr::write_bytes(p, 0xa5, l.size()); }
        x.blocks[x.bn] = Block { addr: p as usize, size: l.size(), align: l.align(), live: true };
        x.bn += 1;
        x.last = (l.size() as u64, l.align() as u64, p as u64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let x = c();
        let mut i = x.bn;
        while i > 0 {
            i -= 1;
            let b = &mut x.blocks[i];
            if b.addr == p as usize {
                if cfg!(miri) {
                    b.live = false;
                    b.addr = 0;
                    return System.dealloc(p, l);
                }
                if !b.live { stop("MEM double free"); }
                if b.size != l.size() || b.align != l.align() { stop("MEM free with a layout other than the requested one"); }
                b.live = false;
                let (lo, hi) = (b.addr & !4095, (b.addr + b.size + 4095) & !4095);
                core::ptr::write_bytes(p, 0xdd, l.size());
                let mut shared = false;
                for o in &x.blocks[..x.bn] { shared |= o.live && o.addr < hi && o.addr + o.size > lo; }
                if !shared { mprotect(lo as *mut u8, hi - lo, 0); }
                return;
            }
        }
        if x.active && !x.quiet && !std::thread::panicking() {
            for b in &x.blocks[..x.bn] {
                if b.addr <= p as usize && (p as usize) < b.addr + b.size { stop("MEM free of a pointer that is not the start of a block"); }
            }
        }
        System.dealloc(p, l)
    }
}
/// map the pages of [a, a+n) at exactly that address
unsafe fn place(a: usize, n: usize) -> *mut u8 {
    let x = c();
    let (lo, hi) = (a & !4095, (a + n + 4095) & !4095);
    let mut q = lo;
    while q < hi {
        if x.pages[..x.pn].contains(&q) {
            mprotect(q as *mut u8, 4096, 3);
        } else {
            let r = mmap(q as *mut u8, 4096, 3, 0x22 | 0x10_0000, -1, 0); // PRIVATE|ANONYMOUS|FIXED_NOREPLACE
            if r as usize != q { stop("UNREALISABLE address"); }
            if x.pn == MAXB { stop("UNREALISABLE too many pages"); }
            x.pages[x.pn] = q;
            x.pn += 1;
        }
        q += 4096;
    }
    a as *mut u8
}

fn nd() -> u64 {
    let x = c();
    if x.ni >= x.nn { x.ni += 1; return 0; }
    x.ni += 1;
    x.nds[x.ni - 1]
}
pub fn u8_() -> u8 { nd() as u8 }
pub fn u16_() -> u16 { nd() as u16 }
pub fn u32_() -> u32 { nd() as u32 }
pub fn u64_() -> u64 { nd() }
pub fn assume(b: bool) { if !b { stop("ASSUME not met") } }
pub fn check(b: bool, s: &'static str) { if !b { stop(&format!("FAIL {}", s)) } }
pub fn returned(s: &'static str) { stop(&format!("FAIL {}", s)) }
pub fn reach(s: &'static str) { event(s) }
pub fn try_raw(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d))) {
        Ok(()) => false,
        Err(e) => {
            let q = core::mem::replace(&mut c().quiet, true);
            drop(e);
            c().quiet = q;
            true
        }
    }
}
pub fn panic() -> ! {
    struct UserPanic;
    std::panic::resume_unwind(Box::new(UserPanic))
}
/// the case counts allocations, of which an optimised build may leave some out
fn counts() { if !c().counted { c().counted = true; event("COUNTS") } }
pub fn blocks() -> u64 { counts(); c().blocks[..c().bn].iter().filter(|b| b.live).count() as u64 }
pub fn allocs() -> u64 { counts(); c().allocs }
pub fn last_size() -> u64 { counts(); c().last.0 }
pub fn last_align() -> u64 { counts(); c().last.1 }
pub fn last_addr() -> u64 { counts(); c().last.2 }
pub fn alloc_mode(m: u8) { c().mode = m }
