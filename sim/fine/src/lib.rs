//! Preemption between seams. In the `fine` build the repository's crates and the simulator are compiled with calls to
//! the functions below: one at the head of every basic block and before every load and store (LLVM's coverage
//! instrumentation), and one in place of every atomic operation (LLVM's thread sanitizer instrumentation, reduced to
//! that); this crate is not. After a number of them the hook is called: the scheduler's chance. Atomic operations are
//! counted apart, as they are where threads meet.
#![allow(clippy::missing_safety_doc)]
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

/// How far a thread may go before the hook is called: in points, in atomic operations.
#[derive(Clone, Copy)]
pub struct Left {
    pub points: u64,
    pub atomics: u64,
}
pub const FOR_EVER: Left = Left { points: u64::MAX, atomics: u64::MAX };
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Point,
    Atomic,
}
pub type Hook = fn(Kind) -> u64;

thread_local! {
    static POINTS: Cell<u64> = const { Cell::new(u64::MAX) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static ATOMICS: Cell<u64> = const { Cell::new(u64::MAX) };
}
static HOOK: AtomicUsize = AtomicUsize::new(0);

/// The hook says after how many further points of that kind it wants to be called again.
pub fn set_hook(f: Hook) {
    HOOK.store(f as usize, Ordering::SeqCst);
}
#[inline(never)]
pub fn set_left(n: Left) {
    POINTS.with(|l| l.set(n.points));
    ATOMICS.with(|l| l.set(n.atomics));
}
/// Whether a `Pause` exists.
#[inline(never)]
pub fn paused() -> bool {
    DEPTH.with(|d| d.get()) > 0
}
/// While one of these exists, no point counts.
pub struct Pause(Left);
impl Pause {
    #[inline(never)]
    #[allow(clippy::new_without_default)]
    pub fn new() -> Pause {
        DEPTH.with(|d| d.set(d.get() + 1));
        Pause(Left { points: POINTS.with(|l| l.replace(u64::MAX)), atomics: ATOMICS.with(|l| l.replace(u64::MAX)) })
    }
}
impl Drop for Pause {
    #[inline(never)]
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
        set_left(self.0);
    }
}
#[cold]
#[inline(never)]
fn fire(kind: Kind) -> u64 {
    let _p = Pause::new();
    let f = HOOK.load(Ordering::SeqCst);
    if f == 0 {
        return u64::MAX;
    }
    // SAFETY: only `set_hook` stores there
    let f: Hook = unsafe { std::mem::transmute(f) };
    f(kind)
}
#[inline(always)]
fn point() {
    let left = POINTS.with(|l| l.get());
    if left == u64::MAX {
        return;
    }
    POINTS.with(|l| l.set(left - 1));
    if left <= 1 {
        let next = fire(Kind::Point);
        POINTS.with(|l| l.set(next));
    }
}
#[inline(always)]
fn atomic() {
    let left = ATOMICS.with(|l| l.get());
    if left == u64::MAX {
        return;
    }
    ATOMICS.with(|l| l.set(left - 1));
    if left <= 1 {
        let next = fire(Kind::Atomic);
        ATOMICS.with(|l| l.set(next));
    }
}
macro_rules! points {
    ($($name:ident)*) => { $(#[no_mangle] pub extern "C" fn $name() { point(); })* };
}
points!(__sanitizer_cov_trace_pc
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// Only one client runs at a time, so the strongest order is as good as the one asked for.
macro_rules! atomics {
    ($t:ident $a:ident $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _mo: i32) -> $t {
            atomic();
            std::sync::atomic::$a::from_ptr(p).load(Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _mo: i32) {
            atomic();
            std::sync::atomic::$a::from_ptr(p).store(v, Ordering::SeqCst)
        }
        atomics!(@rmw $t $a $xchg swap);
        atomics!(@rmw $t $a $add fetch_add);
        atomics!(@rmw $t $a $sub fetch_sub);
        atomics!(@rmw $t $a $and fetch_and);
        atomics!(@rmw $t $a $or fetch_or);
        atomics!(@rmw $t $a $xor fetch_xor);
        atomics!(@rmw $t $a $nand fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _mo: i32, _fmo: i32) -> $t {
            atomic();
            match std::sync::atomic::$a::from_ptr(p).compare_exchange(old, new, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(v) | Err(v) => v,
            }
        }
    };
    (@rmw $t:ident $a:ident $name:ident $op:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *mut $t, v: $t, _mo: i32) -> $t {
            atomic();
            std::sync::atomic::$a::from_ptr(p).$op(v, Ordering::SeqCst)
        }
    };
}
atomics!(u8 AtomicU8 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add
    __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor
    __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomics!(u16 AtomicU16 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add
    __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor
    __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomics!(u32 AtomicU32 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add
    __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor
    __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomics!(u64 AtomicU64 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add
    __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor
    __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_mo: i32) {
    std::sync::atomic::fence(Ordering::SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {
    std::sync::atomic::compiler_fence(Ordering::SeqCst);
}

/// The simulator's own atomics, which are no points.
pub mod own {
    use std::sync::atomic::Ordering;
    macro_rules! own {
        ($($name:ident $t:ident)*) => { $(
            pub struct $name(std::sync::atomic::$name);
            impl $name {
                pub const fn new(v: $t) -> Self { Self(std::sync::atomic::$name::new(v)) }
                #[inline(never)] pub fn load(&self, o: Ordering) -> $t { self.0.load(o) }
                #[inline(never)] pub fn store(&self, v: $t, o: Ordering) { self.0.store(v, o) }
                #[inline(never)] pub fn swap(&self, v: $t, o: Ordering) -> $t { self.0.swap(v, o) }
            }
        )* };
        (add $($name:ident $t:ident)*) => { $(
            impl $name { #[inline(never)] pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.0.fetch_add(v, o) }
                #[inline(never)] pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.0.fetch_sub(v, o) } }
        )* };
    }
    own!(AtomicU64 u64 AtomicU32 u32 AtomicU8 u8 AtomicBool bool);
    own!(add AtomicU64 u64 AtomicU32 u32 AtomicU8 u8);
}
