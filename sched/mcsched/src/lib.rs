//! A controlled scheduler: model threads are real threads of which exactly one runs at a time;
//! at every synchronisation operation the running thread hands the choice of who goes on to the
//! schedule being explored.  One execution per process (the explorer forks), so process-wide
//! state of the code under test is fresh in every execution.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}

/// A point where more than one thread could go on.
#[derive(Clone, Debug)]
pub struct Decision {
    pub enabled: usize,
    pub chosen: usize,
    /// Going on with anything but choice 0 preempts a thread that could continue.
    pub running_enabled: bool,
    /// Control state: what each thread has done so far.
    pub state: String,
    pub thread: usize,
}

#[derive(Default)]
struct Inner {
    st: Vec<St>,
    current: usize,
    prefix: Vec<u8>,
    trace: Vec<Decision>,
    steps: Vec<usize>,
    last: Vec<String>,
    log: Vec<String>,
    objs: HashMap<usize, usize>,
    points: usize,
}

static S: Mutex<Option<Inner>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
static ABORT: Mutex<Option<fn(&str, &Report)>> = Mutex::new(None);

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
    static STACK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

pub struct Report {
    pub trace: Vec<Decision>,
    pub log: Vec<String>,
}

const HORIZON: usize = 5000;

fn fatal(g: &Inner, what: &str) -> ! {
    let r = Report { trace: g.trace.clone(), log: g.log.clone() };
    let f = ABORT.lock().unwrap().expect("abort handler");
    f(what, &r);
    unreachable!()
}

impl Inner {
    /// Picks the next thread to run; the caller has updated its own status.
    fn pick(&mut self) {
        let me = self.current;
        let mut en: Vec<usize> = vec![];
        if self.st[me] == St::Ready {
            en.push(me);
        }
        for (i, s) in self.st.iter().enumerate() {
            if i != me && *s == St::Ready {
                en.push(i);
            }
        }
        if en.is_empty() {
            if self.st.iter().all(|s| *s == St::Done) {
                return;
            }
            fatal(self, "deadlock");
        }
        let mut c = 0;
        if en.len() > 1 {
            let k = self.trace.len();
            if k < self.prefix.len() {
                c = self.prefix[k] as usize;
                if c >= en.len() {
                    fatal(self, "divergence while replaying a schedule");
                }
            }
            let state = self
                .last
                .iter()
                .zip(&self.steps)
                .zip(&self.st)
                .map(|((l, n), s)| format!("{n}:{l}:{}", matches!(s, St::Ready) as u8))
                .collect::<Vec<_>>()
                .join("|");
            self.trace.push(Decision {
                enabled: en.len(),
                chosen: c,
                running_enabled: self.st[me] == St::Ready,
                state,
                thread: en[c],
            });
        }
        self.current = en[c];
    }
}

fn on_own_stack(addr: usize) -> bool {
    let (lo, hi) = STACK.with(|s| s.get());
    addr >= lo && addr < hi
}

/// True if called from a model thread.
pub fn active() -> bool {
    ME.try_with(|m| m.get().is_some()).unwrap_or(false)
}

/// A scheduling point before an operation on the object at `addr`.  Objects on the thread's own
/// stack cannot be shared and are not points.
pub fn point(kind: &'static str, addr: usize) {
    let Some(me) = ME.try_with(|m| m.get()).ok().flatten() else { return };
    if on_own_stack(addr) {
        return;
    }
    let mut g = S.lock().unwrap();
    {
        let s = g.as_mut().unwrap();
        let n = s.objs.len();
        let o = *s.objs.entry(addr).or_insert(n);
        s.points += 1;
        if s.points > HORIZON {
            fatal(s, "no end within the horizon (livelock)");
        }
        s.steps[me] += 1;
        s.last[me] = format!("{kind}{o}");
        s.pick();
        let line = format!("T{} {kind} #{o}", me);
        let cur = s.current;
        s.log.push(if cur == me { line } else { format!("{line} (switch to T{cur})") });
        if cur == me {
            return;
        }
    }
    CV.notify_all();
    while g.as_ref().unwrap().current != me {
        g = CV.wait(g).unwrap();
    }
}

/// Blocks until somebody calls `unblock` for this address and the schedule continues this thread.
pub fn block(addr: usize) {
    let Some(me) = ME.with(|m| m.get()) else { panic!("would block forever outside the model") };
    let mut g = S.lock().unwrap();
    {
        let s = g.as_mut().unwrap();
        s.st[me] = St::Blocked(addr);
        s.log.push(format!("T{me} blocked"));
        s.pick();
    }
    CV.notify_all();
    while g.as_ref().unwrap().current != me {
        g = CV.wait(g).unwrap();
    }
}

pub fn unblock(addr: usize) {
    if !active() {
        return;
    }
    let mut g = S.lock().unwrap();
    for s in g.as_mut().unwrap().st.iter_mut() {
        if *s == St::Blocked(addr) {
            *s = St::Ready;
        }
    }
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, attr: *mut [u64; 16]) -> i32;
    fn pthread_attr_getstack(attr: *const [u64; 16], addr: *mut usize, size: *mut usize) -> i32;
    fn pthread_attr_destroy(attr: *mut [u64; 16]) -> i32;
}

fn find_stack() {
    unsafe {
        let mut a = [0u64; 16];
        let (mut lo, mut sz) = (0usize, 0usize);
        if pthread_getattr_np(pthread_self(), &mut a) == 0 {
            pthread_attr_getstack(&a, &mut lo, &mut sz);
            pthread_attr_destroy(&mut a);
        }
        STACK.with(|s| s.set((lo, lo + sz)));
    }
}

/// Runs the bodies as model threads under the schedule `prefix` (choice 0 afterwards).
/// `abort` is called, and must not return, on deadlock, divergence or livelock.
pub fn run(prefix: Vec<u8>, bodies: Vec<Box<dyn FnOnce() + Send>>, abort: fn(&str, &Report)) -> Report {
    let n = bodies.len();
    *ABORT.lock().unwrap() = Some(abort);
    *S.lock().unwrap() = Some(Inner {
        st: vec![St::Ready; n],
        current: usize::MAX,
        prefix,
        steps: vec![0; n],
        last: vec![String::new(); n],
        ..Default::default()
    });
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            std::thread::spawn(move || {
                find_stack();
                {
                    let mut g = S.lock().unwrap();
                    while g.as_ref().unwrap().current != i {
                        g = CV.wait(g).unwrap();
                    }
                }
                ME.with(|m| m.set(Some(i)));
                b();
                ME.with(|m| m.set(None));
                let mut g = S.lock().unwrap();
                let s = g.as_mut().unwrap();
                s.st[i] = St::Done;
                s.last[i] = "end".into();
                s.pick();
                drop(g);
                CV.notify_all();
            })
        })
        .collect();
    {
        let mut g = S.lock().unwrap();
        let s = g.as_mut().unwrap();
        s.current = 0;
        // The first choice: who starts.
        s.pick_first();
    }
    CV.notify_all();
    for h in hs {
        h.join().expect("model thread");
    }
    let s = S.lock().unwrap().take().unwrap();
    if s.trace.len() < s.prefix.len() {
        fatal(&s, "divergence: the schedule was not used up");
    }
    Report { trace: s.trace, log: s.log }
}

impl Inner {
    fn pick_first(&mut self) {
        self.pick();
        // Starting with another thread preempts nobody.
        if let Some(d) = self.trace.first_mut() {
            d.running_enabled = false;
        }
    }
}
