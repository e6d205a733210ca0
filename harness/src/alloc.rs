//! The allocation monitor: a global allocator that counts what the current
//! thread allocates while it is inside the library (`lib!`), and C24.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static INSIDE: Cell<Option<&'static str>> = const { Cell::new(None) };
    static HITS: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FIRST: Cell<(usize, &'static str)> = const { Cell::new((0, "")) };
}
pub struct Counting;
fn note(size: usize) {
    let _ = INSIDE.try_with(|i| {
        if let Some(what) = i.get() {
            HITS.with(|h| {
                if h.get() == 0 {
                    FIRST.with(|f| f.set((size, what)))
                }
                h.set(h.get() + 1)
            })
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

pub struct Guard(Option<&'static str>);
impl Drop for Guard {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(self.0))
    }
}
pub fn enter(what: &'static str) -> Guard {
    CALLS.with(|c| c.set(c.get() + 1));
    INSIDE.with(|i| Guard(i.replace(Some(what))))
}
/// Back in the application: signers, for one, may allocate.
pub fn leave() -> Guard {
    INSIDE.with(|i| Guard(i.replace(None)))
}
/// Forget what was counted.
pub fn reset() {
    HITS.with(|h| h.set(0));
    CALLS.with(|h| h.set(0));
    INSIDE.with(|i| i.set(None));
}
/// Calls into the library, allocations in them, and the first of those.
pub fn counted() -> (u64, u64, usize, &'static str) {
    let f = FIRST.with(|f| f.get());
    (CALLS.with(|c| c.get()), HITS.with(|c| c.get()), f.0, f.1)
}
/// Evaluate a call into the library under the monitor. What is passed in must
/// have been made before.
#[macro_export]
macro_rules! lib {
    ($e:expr) => {{
        let _g = $crate::alloc::enter(stringify!($e));
        $e
    }};
}

use vcommon::run::{Check, Obs, Part};

/// The verdict on a case of another property: not whether that property holds
/// (its own check says that), but whether the library allocated. A panic
/// allocates, and belongs to the other property too.
fn after(_other: Check, o: &mut Obs, panicked: bool) -> Check {
    let (calls, hits, size, what) = counted();
    INSIDE.with(|i| i.set(None));
    o.judge(calls > 0);
    if panicked {
        o.class("panicked: not judged");
        return Ok(());
    }
    o.class(match calls {
        0 => "no call",
        1..=9 => "1-9 calls",
        10..=99 => "10-99 calls",
        _ => "100 calls and more",
    });
    if hits > 0 {
        let what: String = what.split_whitespace().collect::<Vec<_>>().join(" ");
        return Err(format!("{hits} heap allocations inside the library, the first of {size} bytes in {what}"));
    }
    Ok(())
}
fn start(seed: u64) {
    getrandom::control::seed(seed);
    reset();
}
pub fn parts() -> Vec<Part> {
    let _ = vcommon::run::AFTER_CASE.set(after);
    let _ = vcommon::run::BEFORE_CASE.set(start);
    let rule = "the library was called at least once";
    let mut v = vec![];
    let mut take = |from: &str, ps: Vec<Part>, thin: usize| {
        v.extend(ps.into_iter().map(|p| p.borrowed(&format!("{from}:"), rule, thin)))
    };
    take("C01", crate::c01::parts(), 4);
    take("C03", crate::c03::parts(), 4);
    take("C04", crate::c04::parts(), 4);
    take("C05", crate::wire::c05(), 5);
    take("C06", crate::wire::c06(), 5);
    take("C08", crate::order::c08(), 5);
    take("C09", crate::order::c09(), 5);
    take("C11", crate::bufs::c11(), 10);
    take("C12", crate::neg::c12(), 5);
    take("C14", crate::neg::c14(), 5);
    take("C16", crate::serve::c16(), 5);
    take("C17", crate::serve::c17(), 5);
    take("C18", crate::bufs::c18(), 5);
    take("C20", crate::units::c20(), 10);
    take("C21", crate::units::c21(), 5);
    take("C22", crate::units::c22(), 5);
    take("C23", crate::units::c23(), 5);
    take("C27", crate::serve::c27(), 5);
    #[cfg(feature = "crypto")]
    {
        take("C02", crate::c02::parts(), 10);
        take("C28", crate::pki::parts(), 4);
    }
    v
}
