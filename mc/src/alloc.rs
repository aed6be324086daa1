//! Scheduling points inside the library: every request to the allocator it makes.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

pub struct Points;

type Hook = Box<dyn FnMut() -> u64>;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

#[inline(always)]
fn point() {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        here()
    }
}

/// one point passed; the hook is called when the budget of this thread is used
#[cold]
fn here() {
    ON.with(|o| o.set(false));
    COUNT.with(|c| c.set(c.get() + 1));
    let left = LEFT.with(|l| {
        l.set(l.get() - 1);
        l.get()
    });
    if left == 0 {
        // the hook is taken out: nothing it does is a point
        let hook = HOOK.with(|h| h.borrow_mut().take());
        if let Some(mut hook) = hook {
            let n = hook();
            LEFT.with(|l| l.set(n));
            HOOK.with(|h| *h.borrow_mut() = Some(hook));
        } else {
            LEFT.with(|l| l.set(u64::MAX));
        }
    }
    ON.with(|o| o.set(true));
}

unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
}

/// the next resolutions of this thread call `hook` after `first` points, then each time after the number it returns
pub fn arm(first: u64, hook: Hook) {
    COUNT.with(|c| c.set(0));
    LEFT.with(|l| l.set(first));
    HOOK.with(|h| *h.borrow_mut() = Some(hook));
}

/// points passed since `arm`
pub fn disarm() -> u64 {
    ON.with(|o| o.set(false));
    LEFT.with(|l| l.set(u64::MAX));
    HOOK.with(|h| *h.borrow_mut() = None);
    COUNT.with(|c| c.get())
}

pub fn armed() -> bool {
    HOOK.with(|h| h.borrow().is_some())
}

/// a call to the model: it is a point, and what the model allocates is not
pub struct Outside(bool);

pub fn outside() -> Outside {
    let was = ON.with(|o| o.get());
    if was {
        here();
        ON.with(|o| o.set(false));
    }
    Outside(was)
}

impl Drop for Outside {
    fn drop(&mut self) {
        if self.0 {
            ON.with(|o| o.set(true))
        }
    }
}

/// the library runs until this is dropped
pub struct Inside(());

pub fn inside() -> Inside {
    if armed() {
        ON.with(|o| o.set(true))
    }
    Inside(())
}

impl Drop for Inside {
    fn drop(&mut self) {
        ON.with(|o| o.set(false))
    }
}
