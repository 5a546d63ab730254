//! Recorder shared by the test UGens, the counting allocator, and phase tracking.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct CountingAlloc;
thread_local! {
    static AUDIO: Cell<bool> = const { Cell::new(false) };
    static PAUSE: Cell<u32> = const { Cell::new(0) };
}
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
fn counting() -> bool {
    AUDIO.try_with(|a| a.get()).unwrap_or(false) && PAUSE.try_with(|p| p.get()).unwrap_or(1) == 0
}
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if counting() {
            ALLOCS.fetch_add(1, Ordering::Relaxed);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if counting() {
            FREES.fetch_add(1, Ordering::Relaxed);
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if counting() {
            ALLOCS.fetch_add(1, Ordering::Relaxed);
        }
        unsafe { System.realloc(p, l, n) }
    }
}
/// Marks the current thread as the audio thread for the duration of `f`.
pub fn on_audio<T>(f: impl FnOnce() -> T) -> T {
    let old = AUDIO.with(|a| a.replace(true));
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            AUDIO.with(|a| a.set(self.0));
        }
    }
    let _g = G(old);
    f()
}
/// Excludes harness bookkeeping from the allocation count (and, with `ctl`, from the audio phase).
pub fn paused<T>(f: impl FnOnce() -> T) -> T {
    PAUSE.with(|p| p.set(p.get() + 1));
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            PAUSE.with(|p| p.set(p.get() - 1));
        }
    }
    let _g = G;
    f()
}
pub fn is_audio() -> bool {
    AUDIO.with(|a| a.get())
}
/// Runs `f` as control-thread code in the middle of an audio callback.
pub fn as_control<T>(f: impl FnOnce() -> T) -> T {
    let old = AUDIO.with(|a| a.replace(false));
    let r = f();
    AUDIO.with(|a| a.set(old));
    r
}

#[derive(Default)]
pub struct Rec {
    /// (id, weighted input sum per frame) in execution order
    pub runs: Vec<(i64, Vec<i64>)>,
    /// (id, clock, block offset, frames) per process call
    pub calls: Vec<(i64, i64, i64, i64)>,
    /// (id, input addresses, output addresses)
    pub bufs: Vec<(i64, Vec<usize>, Vec<usize>)>,
    /// (id, param, kind, value, audio clock)
    pub applies: Vec<(i64, i64, String, i64)>,
    pub delays: Vec<(i64, i64, i64)>,
    /// dropped ids; true if dropped while on the audio thread
    pub drops: Vec<(i64, bool)>,
    pub inits: Vec<(i64, i64, i64)>,
    pub bad: Vec<String>,
}
pub static REC: Mutex<Option<Rec>> = Mutex::new(None);
pub fn with<T>(f: impl FnOnce(&mut Rec) -> T) -> T {
    paused(|| {
        let mut g = match REC.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        f(g.get_or_insert_with(Rec::default))
    })
}
pub fn take() -> Rec {
    with(std::mem::take)
}
/// f32/f64 sample to integer; anything that is not a small integer becomes -1.
pub fn int(x: f64) -> i64 {
    if x.fract() == 0.0 && x.abs() < 1.0e9 { x as i64 } else { -1 }
}
pub fn take_drops() -> Vec<(i64, bool)> {
    with(|r| std::mem::take(&mut r.drops))
}
