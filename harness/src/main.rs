//! replay CASES: runs each line `harness;nd,nd,..;addr,addr,..` of the file natively and logs what happens.
//! replay --direct harness nds addrs: one case in this process (for Miri).
use std::io::Write;

#[global_allocator]
static A: tbv::native::Alloc = tbv::native::Alloc;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(n: u32) -> u32;
}
fn nums(s: &str) -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
fn one(f: extern "C-unwind" fn(), nds: &[u64], addrs: &[u64]) {
    tbv::native::start(nds, addrs);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
    tbv::native::finish();
    if r.is_err() { tbv::native::event("PANIC"); }
    core::mem::forget(r);
    tbv::native::event("END");
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        tbv::native::event(&format!("PANICAT {}", l));
    }));
    let all = tbv::all();
    let find = |n: &str| all.iter().find(|x| x.0 == n).map(|x| x.1);
    if a[1] == "--direct" {
        println!("CASE 0");
        one(find(&a[2]).expect("harness"), &nums(&a[3]), &nums(&a[4]));
        return;
    }
    let text = std::fs::read_to_string(&a[1]).unwrap();
    for (i, l) in text.lines().enumerate() {
        let p: Vec<&str> = l.split(';').collect();
        println!("CASE {}", i);
        std::io::stdout().flush().unwrap();
        let f = match find(p[0]) { Some(f) => f, None => { println!("  UNKNOWN"); continue } };
        let (nds, addrs) = (nums(p[1]), nums(p[2]));
        unsafe {
            let pid = fork();
            if pid == 0 {
                alarm(20);
                one(f, &nds, &addrs);
                let _ = std::io::stdout().flush();
                _exit(0);
            }
            let mut s = 0;
            waitpid(pid, &mut s, 0);
            if s & 0x7f != 0 { println!("  CRASH {}", s & 0x7f); }
            else if s != 0 { println!("  EXIT {}", s >> 8); }
        }
    }
}
