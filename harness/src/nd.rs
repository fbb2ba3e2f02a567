//! The nondeterminism/assertion interface every harness is written against. Three back ends:
//! * `cfg(kani)`      - CBMC through Kani;
//! * `feature = "ir"` - external functions that engine/irsym interprets over the crate's LLVM IR;
//! * `feature = "replay"` - values read from the command line, checks executed natively.

#[cfg(kani)]
mod imp {
    pub fn u8_() -> u8 { kani::any() }
    pub fn u16_() -> u16 { kani::any() }
    pub fn u32_() -> u32 { kani::any() }
    pub fn u64_() -> u64 { kani::any() }
    pub fn assume(b: bool) { kani::assume(b) }
    pub fn attempt<F: FnOnce()>(f: F) -> bool { f(); false }
}

#[cfg(not(kani))]
mod imp {
    pub use self::ext::*;
    #[cfg(not(feature = "replay"))]
    pub mod ext {
        extern "C-unwind" {
            fn nd_u8() -> u8;
            fn nd_u16() -> u16;
            fn nd_u32() -> u32;
            fn nd_u64() -> u64;
            fn nd_assume(b: bool);
            fn nd_check(b: bool, p: *const u8, n: usize);
            fn nd_returned(p: *const u8, n: usize);
            fn nd_reach(p: *const u8, n: usize);
            fn nd_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool;
            fn nd_panic() -> !;
            fn nd_blocks() -> u64;
            fn nd_allocs() -> u64;
            fn nd_last_size() -> u64;
            fn nd_last_align() -> u64;
            fn nd_last_addr() -> u64;
            fn nd_alloc_mode(mode: u8);
        }
        pub fn u8_() -> u8 { unsafe { nd_u8() } }
        pub fn u16_() -> u16 { unsafe { nd_u16() } }
        pub fn u32_() -> u32 { unsafe { nd_u32() } }
        pub fn u64_() -> u64 { unsafe { nd_u64() } }
        pub fn assume(b: bool) { unsafe { nd_assume(b) } }
        pub fn check(b: bool, s: &'static str) { unsafe { nd_check(b, s.as_ptr(), s.len()) } }
        pub fn returned(s: &'static str) { unsafe { nd_returned(s.as_ptr(), s.len()) } }
        pub fn reach(s: &'static str) { unsafe { nd_reach(s.as_ptr(), s.len()) } }
        /// Run `f`; true if it panicked.
        pub fn try_raw(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool { unsafe { nd_try(f, d) } }
        /// A panic in user code.
        pub fn panic() -> ! { unsafe { nd_panic() } }
        /// Heap blocks allocated by the harness and not yet freed.
        pub fn blocks() -> u64 { unsafe { nd_blocks() } }
        /// Allocations so far.
        pub fn allocs() -> u64 { unsafe { nd_allocs() } }
        pub fn last_size() -> u64 { unsafe { nd_last_size() } }
        pub fn last_align() -> u64 { unsafe { nd_last_align() } }
        pub fn last_addr() -> u64 { unsafe { nd_last_addr() } }
        /// 0: ordinary allocator; 1: may fail; 2: any 64-bit address; 3: fails; 4: hands out freed blocks again.
        pub fn alloc_mode(m: u8) { unsafe { nd_alloc_mode(m) } }
    }
    #[cfg(feature = "replay")]
    pub use crate::native as ext;

    pub fn attempt<F: FnOnce()>(f: F) -> bool {
        extern "C-unwind" fn tramp<F: FnOnce()>(d: *mut u8) {
            let f = unsafe { (d as *mut F).read() };
            f()
        }
        let mut f = core::mem::ManuallyDrop::new(f);
        try_raw(tramp::<F>, &mut f as *mut _ as *mut u8)
    }
}

pub use self::imp::*;

pub fn bool_() -> bool {
    let b = u8_();
    assume(b < 2);
    b == 1
}

/// assert; the label identifies the obligation in reports
#[macro_export]
macro_rules! check {
    ($c:expr, $l:literal) => {{
        #[cfg(kani)]
        kani::assert($c, concat!("CHK ", $l));
        #[cfg(not(kani))]
        $crate::nd::check($c, concat!("CHK ", $l));
    }};
}
/// reachability witness: must be reachable, otherwise the harness is vacuous
#[macro_export]
macro_rules! reach {
    ($l:literal) => {{
        #[cfg(kani)]
        kani::cover(true, concat!("REACH ", $l));
        #[cfg(not(kani))]
        $crate::nd::reach(concat!("REACH ", $l));
    }};
}
/// the expression must panic for every input that gets here
#[macro_export]
macro_rules! must_panic {
    ($e:expr, $l:literal) => {{
        $crate::reach!($l);
        let r = $e;
        core::mem::forget(r);
        #[cfg(kani)]
        kani::assert(false, concat!("RET ", $l));
        #[cfg(not(kani))]
        $crate::nd::returned(concat!("RET ", $l));
    }};
}

/// Defines harnesses. Names ending in `_mp` expect panics (see `must_panic!`).
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            $(#[$m])*
            pub fn $name() $body
            #[cfg(not(kani))]
            #[no_mangle]
            pub extern "C-unwind" fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, extern "C-unwind" fn())] = &[$( (stringify!($name), $name as extern "C-unwind" fn()) ),*];
    };
}
