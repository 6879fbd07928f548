//! What is being tried at the moment, per thread: when the program aborts, or does not come back from a case, the
//! case is still reported.
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};
const N: usize = 64;
struct Slot { ptr: AtomicPtr<char>, len: AtomicUsize, seq: AtomicU64 }
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { ptr: AtomicPtr::new(std::ptr::null_mut()), len: AtomicUsize::new(0), seq: AtomicU64::new(0) };
static SLOTS: [Slot; N] = [EMPTY; N];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static PROP: AtomicU64 = AtomicU64::new(0);
thread_local! { static IDX: usize = NEXT.fetch_add(1, SeqCst) % N; }
/// odd while a case is being tried
pub fn enter(s: &[char]) -> usize {
    let i = IDX.with(|i| *i);
    SLOTS[i].ptr.store(s.as_ptr() as *mut char, Relaxed); SLOTS[i].len.store(s.len(), Relaxed); SLOTS[i].seq.fetch_add(1, SeqCst);
    i
}
pub fn leave(i: usize) { SLOTS[i].seq.fetch_add(1, SeqCst); }
fn report(i: usize, what: &str) {
    let (p, n) = (SLOTS[i].ptr.load(Relaxed), SLOTS[i].len.load(Relaxed));
    let s: Vec<u32> = if p.is_null() { vec![] } else { unsafe { std::slice::from_raw_parts(p as *const u32, n) }.to_vec() };
    let mut t = String::new();
    for (k, c) in s.iter().enumerate() { if k > 0 { t.push(' '); } t.push_str(&format!("{c:04X}")); }
    println!("STATS evaluations=1 nontrivial=1 ms=0\nFAIL C{:02} input=[{t}] {what}", PROP.load(Relaxed));
    let _ = std::io::Write::flush(&mut std::io::stdout());
    unsafe { _exit(1) }
}
extern "C" { fn signal(n: i32, f: usize) -> usize; fn _exit(c: i32) -> !; }
extern "C" fn on_signal(n: i32) {
    let i = IDX.try_with(|i| *i).unwrap_or(0);
    unsafe { signal(n, 0); }
    if SLOTS[i].seq.load(SeqCst) % 2 == 1 { report(i, match n { 6 => "the program aborts (panic that cannot unwind, or out of memory)", 4 => "illegal instruction", 7 => "bus error", 8 => "arithmetic trap", _ => "signal" }); }
}
pub fn start(prop: &str) {
    PROP.store(prop[1..].parse().unwrap_or(0), Relaxed);
    unsafe { for n in [4, 6, 7, 8] { signal(n, on_signal as *const () as usize); } }
    std::thread::spawn(|| {
        let mut last = [(0u64, 0u32); N];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for i in 0..N {
                let q = SLOTS[i].seq.load(SeqCst);
                if q % 2 == 0 || q != last[i].0 { last[i] = (q, 0); continue; }
                last[i].1 += 1;
                let big = SLOTS[i].len.load(Relaxed) > 5000;
                if last[i].1 >= if big { 80 } else { 40 } { report(i, "does not come to an end (no result within 40 s)"); }
            }
        }
    });
}
