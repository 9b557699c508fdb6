//! A stand-in for `std`: everything of the real one, with the synchronisation types replaced by
//! ones that are scheduling points.  The library under test is compiled with `--extern std=` this.
#![no_implicit_prelude]
#![allow(ambiguous_glob_reexports, deprecated)]
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;

    pub use crate::lazy::{LazyLock, Once, OnceLock, OnceState};
    pub use crate::lock::{Condvar, MappedMutexGuard, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};

    pub mod atomic {
        pub use crate::atom::*;
        pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};
    }
}

mod atom {
    use ::mcsched::point;
    use ::std::prelude::v1::*;
    use ::std::sync::atomic as real;
    use real::Ordering::{self, SeqCst};

    macro_rules! common {
        ($n:ident, $t:ty, $r:ty) => {
            #[derive(Default)]
            #[repr(transparent)]
            pub struct $n($r);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    Self(<$r>::new(v))
                }
                fn at(&self) -> usize {
                    self as *const _ as *const u8 as usize
                }
                pub fn load(&self, _: Ordering) -> $t {
                    point("load", self.at());
                    self.0.load(SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    point("store", self.at());
                    self.0.store(v, SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    point("swap", self.at());
                    self.0.swap(v, SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point("cas", self.at());
                    self.0.compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    point("cas", self.at());
                    self.0.compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                    point("update", self.at());
                    self.0.fetch_update(SeqCst, SeqCst, &mut f)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl ::std::fmt::Debug for $n {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    ::std::fmt::Debug::fmt(&self.0, f)
                }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! int {
        ($n:ident, $t:ty) => {
            common!($n, $t, real::$n);
            impl $n {
                pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                    point("add", self.at());
                    self.0.fetch_add(v, SeqCst)
                }
                pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                    point("sub", self.at());
                    self.0.fetch_sub(v, SeqCst)
                }
                pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                    point("max", self.at());
                    self.0.fetch_max(v, SeqCst)
                }
                pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
                    point("min", self.at());
                    self.0.fetch_min(v, SeqCst)
                }
                pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                    point("and", self.at());
                    self.0.fetch_and(v, SeqCst)
                }
                pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                    point("or", self.at());
                    self.0.fetch_or(v, SeqCst)
                }
                pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
                    point("xor", self.at());
                    self.0.fetch_xor(v, SeqCst)
                }
            }
        };
    }
    int!(AtomicU8, u8);
    int!(AtomicU16, u16);
    int!(AtomicU32, u32);
    int!(AtomicU64, u64);
    int!(AtomicUsize, usize);
    int!(AtomicI8, i8);
    int!(AtomicI16, i16);
    int!(AtomicI32, i32);
    int!(AtomicI64, i64);
    int!(AtomicIsize, isize);
    common!(AtomicBool, bool, real::AtomicBool);

    #[repr(transparent)]
    pub struct AtomicPtr<T>(real::AtomicPtr<T>);
    impl<T> AtomicPtr<T> {
        pub const fn new(v: *mut T) -> Self {
            Self(real::AtomicPtr::new(v))
        }
        fn at(&self) -> usize {
            self as *const _ as *const u8 as usize
        }
        pub fn load(&self, _: Ordering) -> *mut T {
            point("load", self.at());
            self.0.load(SeqCst)
        }
        pub fn store(&self, v: *mut T, _: Ordering) {
            point("store", self.at());
            self.0.store(v, SeqCst)
        }
        pub fn swap(&self, v: *mut T, _: Ordering) -> *mut T {
            point("swap", self.at());
            self.0.swap(v, SeqCst)
        }
        pub fn compare_exchange(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
            point("cas", self.at());
            self.0.compare_exchange(a, b, SeqCst, SeqCst)
        }
        pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
            point("cas", self.at());
            self.0.compare_exchange(a, b, SeqCst, SeqCst)
        }
        pub fn get_mut(&mut self) -> &mut *mut T {
            self.0.get_mut()
        }
        pub fn into_inner(self) -> *mut T {
            self.0.into_inner()
        }
    }
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            Self::new(::std::ptr::null_mut())
        }
    }
    impl<T> ::std::fmt::Debug for AtomicPtr<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            ::std::fmt::Debug::fmt(&self.0, f)
        }
    }
    impl AtomicBool {
        pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
            point("and", self.at());
            self.0.fetch_and(v, SeqCst)
        }
        pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
            point("or", self.at());
            self.0.fetch_or(v, SeqCst)
        }
        pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
            point("xor", self.at());
            self.0.fetch_xor(v, SeqCst)
        }
        pub fn fetch_not(&self, _: Ordering) -> bool {
            point("not", self.at());
            self.0.fetch_xor(true, SeqCst)
        }
    }
}

mod lock {
    use ::mcsched::{block, point, unblock};
    use ::std::cell::UnsafeCell;
    use ::std::ops::{Deref, DerefMut};
    use ::std::prelude::v1::*;
    use ::std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::SeqCst};
    use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
    use ::std::{fmt, thread};

    pub use ::std::sync::MutexGuard as MappedMutexGuard;

    pub struct Mutex<T: ?Sized> {
        locked: AtomicBool,
        poison: AtomicBool,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
    impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

    pub struct MutexGuard<'a, T: ?Sized> {
        m: &'a Mutex<T>,
        panicking: bool,
        _not_send: ::std::marker::PhantomData<*const ()>,
    }
    unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { locked: AtomicBool::new(false), poison: AtomicBool::new(false), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            let p = self.poison.load(SeqCst);
            let d = self.data.into_inner();
            if p { Err(PoisonError::new(d)) } else { Ok(d) }
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn at(&self) -> usize {
            &self.locked as *const _ as usize
        }
        fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
            let g = MutexGuard { m: self, panicking: thread::panicking(), _not_send: ::std::marker::PhantomData };
            if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            loop {
                point("lock", self.at());
                if !self.locked.swap(true, SeqCst) {
                    return self.guard();
                }
                block(self.at());
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point("try_lock", self.at());
            if self.locked.swap(true, SeqCst) {
                return Err(TryLockError::WouldBlock);
            }
            match self.guard() {
                Ok(g) => Ok(g),
                Err(p) => Err(TryLockError::Poisoned(p)),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(SeqCst)
        }
        pub fn clear_poison(&self) {
            self.poison.store(false, SeqCst)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            let p = self.poison.load(SeqCst);
            let d = self.data.get_mut();
            if p { Err(PoisonError::new(d)) } else { Ok(d) }
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Mutex { .. }")
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.m.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.m.data.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if !self.panicking && thread::panicking() {
                self.m.poison.store(true, SeqCst);
            }
            self.m.locked.store(false, SeqCst);
            unblock(self.m.at());
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(&**self, f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Display::fmt(&**self, f)
        }
    }

    pub struct RwLock<T: ?Sized> {
        /// Readers, or -1 for a writer.
        n: AtomicIsize,
        poison: AtomicBool,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);

    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { n: AtomicIsize::new(0), poison: AtomicBool::new(false), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.data.into_inner())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn at(&self) -> usize {
            &self.n as *const _ as usize
        }
        fn res<G>(&self, g: G) -> LockResult<G> {
            if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            loop {
                point("read", self.at());
                if self.n.load(SeqCst) >= 0 {
                    self.n.fetch_add(1, SeqCst);
                    return self.res(RwLockReadGuard(self));
                }
                block(self.at());
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            loop {
                point("write", self.at());
                if self.n.load(SeqCst) == 0 {
                    self.n.store(-1, SeqCst);
                    return self.res(RwLockWriteGuard(self));
                }
                block(self.at());
            }
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            point("try_read", self.at());
            if self.n.load(SeqCst) < 0 {
                return Err(TryLockError::WouldBlock);
            }
            self.n.fetch_add(1, SeqCst);
            self.res(RwLockReadGuard(self)).map_err(TryLockError::Poisoned)
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            point("try_write", self.at());
            if self.n.load(SeqCst) != 0 {
                return Err(TryLockError::WouldBlock);
            }
            self.n.store(-1, SeqCst);
            self.res(RwLockWriteGuard(self)).map_err(TryLockError::Poisoned)
        }
        pub fn clear_poison(&self) {
            self.poison.store(false, SeqCst)
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(SeqCst)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.data.get_mut())
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T: ?Sized> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("RwLock { .. }")
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.data.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.data.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.0.n.fetch_sub(1, SeqCst);
            unblock(self.0.at());
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if thread::panicking() {
                self.0.poison.store(true, SeqCst);
            }
            self.0.n.store(0, SeqCst);
            unblock(self.0.at());
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct WaitTimeoutResult(bool);
    impl WaitTimeoutResult {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }

    #[derive(Default)]
    pub struct Condvar {
        n: AtomicIsize,
    }
    impl fmt::Debug for Condvar {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Condvar { .. }")
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar { n: AtomicIsize::new(0) }
        }
        fn at(&self) -> usize {
            &self.n as *const _ as usize
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let m = g.m;
            drop(g);
            block(self.at());
            m.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            let mut g = g;
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        /// Gives up at once: the caller's time has always run out.
        pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, _: ::std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
            let m = g.m;
            drop(g);
            point("wait", self.at());
            match m.lock() {
                Ok(g) => Ok((g, WaitTimeoutResult(true))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
            }
        }
        pub fn notify_one(&self) {
            point("notify", self.at());
            unblock(self.at())
        }
        pub fn notify_all(&self) {
            point("notify", self.at());
            unblock(self.at())
        }
    }
}

mod lazy {
    use ::mcsched::{block, point, unblock};
    use ::std::cell::{Cell, UnsafeCell};
    use ::std::fmt;
    use ::std::ops::Deref;
    use ::std::prelude::v1::*;
    use ::std::sync::atomic::{AtomicU8, Ordering::SeqCst};
    use ::std::{panic, unreachable};

    pub use ::std::sync::OnceState;

    /// 0 new, 1 running, 2 done, 3 poisoned.
    pub struct Once(AtomicU8);
    impl Once {
        pub const fn new() -> Self {
            Once(AtomicU8::new(0))
        }
        fn at(&self) -> usize {
            self as *const _ as usize
        }
        pub fn is_completed(&self) -> bool {
            point("once?", self.at());
            self.0.load(SeqCst) == 2
        }
        /// Runs `f` once; a panic inside puts `after_panic` in the state.
        pub(crate) fn run(&self, after_panic: u8, f: impl FnOnce()) {
            loop {
                point("once", self.at());
                match self.0.load(SeqCst) {
                    0 => {
                        self.0.store(1, SeqCst);
                        struct Reset<'a>(&'a Once, u8);
                        impl Drop for Reset<'_> {
                            fn drop(&mut self) {
                                self.0 .0.store(self.1, SeqCst);
                                unblock(self.0.at());
                            }
                        }
                        let mut r = Reset(self, after_panic);
                        f();
                        r.1 = 2;
                        return;
                    }
                    1 => block(self.at()),
                    2 => return,
                    3 => panic!("Once instance has previously been poisoned"),
                    _ => unreachable!(),
                }
            }
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.run(3, f)
        }
    }
    impl fmt::Debug for Once {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Once { .. }")
        }
    }

    pub struct OnceLock<T> {
        once: Once,
        v: UnsafeCell<Option<T>>,
    }
    unsafe impl<T: Send> Send for OnceLock<T> {}
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { once: Once::new(), v: UnsafeCell::new(None) }
        }
        pub fn get(&self) -> Option<&T> {
            if self.once.is_completed() {
                unsafe { (*self.v.get()).as_ref() }
            } else {
                None
            }
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut().as_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            let mut t = Some(t);
            self.once.run(0, || unsafe { *self.v.get() = t.take() });
            match t {
                None => Ok(()),
                Some(t) => Err(t),
            }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            self.once.run(0, || {
                let t = f();
                unsafe { *self.v.get() = Some(t) }
            });
            unsafe { (*self.v.get()).as_ref().unwrap() }
        }
        /// As in `once_cell`, too: a failed initialisation leaves the cell empty.
        pub fn get_or_try_init<E, F: FnOnce() -> Result<T, E>>(&self, f: F) -> Result<&T, E> {
            let mut err = None;
            struct Failed;
            let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
                self.once.run(0, || match f() {
                    Ok(t) => unsafe { *self.v.get() = Some(t) },
                    Err(e) => {
                        err = Some(e);
                        panic::resume_unwind(Box::new(Failed))
                    }
                })
            }));
            match (r, err) {
                (Err(_), Some(e)) => Err(e),
                (Err(p), None) => panic::resume_unwind(p),
                _ => Ok(unsafe { (*self.v.get()).as_ref().unwrap() }),
            }
        }
        pub fn try_insert(&self, t: T) -> Result<&T, (&T, T)> {
            let r = self.set(t);
            let now = unsafe { (*self.v.get()).as_ref().unwrap() };
            match r {
                Ok(()) => Ok(now),
                Err(t) => Err((now, t)),
            }
        }
        pub const fn with_value(t: T) -> Self {
            OnceLock { once: Once(AtomicU8::new(2)), v: UnsafeCell::new(Some(t)) }
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.once = Once::new();
            self.v.get_mut().take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            OnceLock::new()
        }
    }
    impl<T> From<T> for OnceLock<T> {
        fn from(t: T) -> Self {
            OnceLock::with_value(t)
        }
    }
    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            self.get().cloned().map_or_else(OnceLock::new, OnceLock::with_value)
        }
    }
    impl<T: PartialEq> PartialEq for OnceLock<T> {
        fn eq(&self, o: &Self) -> bool {
            self.get() == o.get()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("OnceLock { .. }")
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        init: Cell<Option<F>>,
    }
    unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock { cell: OnceLock::new(), init: Cell::new(Some(f)) }
        }
        pub fn force(this: &Self) -> &T {
            this.cell.get_or_init(|| match this.init.take() {
                Some(f) => f(),
                None => panic!("LazyLock instance has previously been poisoned"),
            })
        }
        pub fn get(this: &Self) -> Option<&T> {
            this.cell.get()
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
    impl<T: Default> Default for LazyLock<T> {
        fn default() -> Self {
            LazyLock::new(T::default)
        }
    }
    impl<T, F> fmt::Debug for LazyLock<T, F> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("LazyLock { .. }")
        }
    }
}
