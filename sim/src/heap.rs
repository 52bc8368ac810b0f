//! Accounting of the host memory a core holds: a counting allocator, switched on only around calls of the code under
//! test (and off again while those call back into the simulated bus), and a pair of cores, one behind the C functions,
//! that live through the same history as the main one.
use crate::bus::*;
use crate::core::*;
use crate::rng::Rng;
use m68000::Registers;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

#[inline]
fn count(n: i64) {
    if ON.with(|o| o.get()) {
        let v = LIVE.with(|l| l.get()) + n;
        LIVE.with(|l| l.set(v));
        PEAK.with(|p| p.set(p.get().max(v)));
        if n > 0 {
            CALLS.with(|c| c.set(c.get() + 1));
        }
    }
}

// SAFETY: everything is passed on to the system allocator unchanged.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Not counted: what the simulated bus itself allocates.
pub struct Pause(bool);
impl Pause {
    #[inline]
    pub fn new() -> Pause {
        Pause(ON.with(|o| o.replace(false)))
    }
}
impl Drop for Pause {
    #[inline]
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
    }
}

/// What one core holds, and the most it held during the last call.
#[derive(Default, Clone, Copy)]
pub struct Acct {
    pub live: i64,
    pub peak: i64,
    pub allocs: u64,
}

impl Acct {
    fn run<R>(&mut self, f: impl FnOnce() -> R) -> R {
        LIVE.with(|l| l.set(self.live));
        PEAK.with(|p| p.set(self.live));
        CALLS.with(|c| c.set(0));
        ON.with(|o| o.set(true));
        let r = f();
        ON.with(|o| o.set(false));
        self.live = LIVE.with(|l| l.get());
        self.peak = PEAK.with(|p| p.get());
        self.allocs += CALLS.with(|c| c.get());
        r
    }
}

/// The most a core may hold beyond its own struct, and the most one call may need for the time being.
pub const BOUND: i64 = 64 * 1024;

enum Subject {
    R(Rust),
    C(FfiCore),
}

pub struct Twin {
    s: Option<Subject>,
    bus: Box<FfiHost>,
    pub acct: Acct,
    torn: bool,
    pub name: &'static str,
}

impl Twin {
    pub fn new(cpu: Cpu, reset: bool, bus: &Bus, torn: bool, c: bool) -> Twin {
        let mut acct = Acct::default();
        let bus = ffi_host(bus.clone(), torn);
        let s = acct.run(|| if c { Subject::C(FfiCore::new(cpu.scc, reset)) } else { Subject::R(Rust::new(cpu, reset)) });
        Twin { s: Some(s), bus, acct, torn, name: if c { "a core of the C interface" } else { "a core" } }
    }
    pub fn mem(&mut self) -> &mut Mem {
        &mut self.bus.bus.mem
    }
    pub fn set_regs(&mut self, r: Registers) {
        match &mut self.s {
            Some(Subject::R(c)) => c.set_regs(r),
            Some(Subject::C(c)) => c.set_regs(r),
            None => {}
        }
    }
    /// `f` on the core in the accounted region; a panic ends the life of this duplicate.
    fn on(&mut self, f: impl FnOnce(&mut Subject, &mut FfiHost, bool) -> Result<(), Fail>) -> Option<String> {
        let (torn, h) = (self.torn, &mut *self.bus);
        let s = self.s.as_mut()?;
        let r = self.acct.run(|| f(s, h, torn));
        if r.is_err() {
            self.s = None;
            return None;
        }
        if self.acct.peak > BOUND {
            return Some(format!("{} took {} bytes of host memory in one call (holding {} after it)", self.name, self.acct.peak, self.acct.live));
        }
        None
    }
    pub fn exception(&mut self, v: u8) -> Option<String> {
        self.on(|s, _, _| {
            match s {
                Subject::R(c) => c.exception(v),
                Subject::C(c) => match vector_enum(v) {
                    Some(e) => c.exception(e),
                    None => c.exception_any(v),
                },
            }
            Ok(())
        })
    }
    pub fn step(&mut self, api: Api, len: usize, panics: bool) -> Option<String> {
        if panics && matches!(self.s, Some(Subject::C(_))) {
            // A panic may not cross the C boundary.
            self.s = None;
            return None;
        }
        self.on(|s, h, torn| match s {
            Subject::R(c) => c.step(api, &mut h.bus, torn).map(drop),
            Subject::C(c) => {
                drop(c.step(api, h, len));
                Ok(())
            }
        })
    }
    pub fn run_loop(&mut self, kind: u8, n: usize, limit: u32, panics: bool) -> Option<String> {
        if panics {
            self.s = None;
            return None;
        }
        self.bus.bus.limit = limit;
        let r = self.on(|s, h, torn| match (s, kind) {
            (Subject::R(c), 0) => c.cycle(&mut h.bus, torn, n).map(drop),
            (Subject::R(c), 1) => c.cycle_until(&mut h.bus, torn, n).map(drop),
            (Subject::R(c), _) => c.run_loop(&mut h.bus, torn).map(drop),
            (Subject::C(c), 0) => {
                c.cycle(h, n);
                Ok(())
            }
            (Subject::C(c), 1) => {
                c.cycle_until(h, n);
                Ok(())
            }
            (Subject::C(c), _) => {
                c.run_loop(h);
                Ok(())
            }
        });
        self.bus.bus.limit = 2000;
        r
    }
    pub fn next(&mut self, what: u8) -> Option<String> {
        self.on(|s, h, torn| match s {
            Subject::R(c) => c.next(&mut h.bus, torn, what).map(drop),
            Subject::C(c) => {
                let _ = c.next(h, what);
                Ok(())
            }
        })
    }
    /// Whether it still is where the main core is. One that is not is of no use.
    pub fn follows(&mut self, regs: &Registers, stop: bool) -> bool {
        let same = match &self.s {
            Some(Subject::R(c)) => crate::run::regs_diff(&c.regs(), regs).is_none() && c.stop() == stop,
            Some(Subject::C(c)) => crate::run::regs_diff(&c.regs(), regs).is_none() && c.stop() == stop,
            None => true,
        };
        if !same {
            self.s = None;
        }
        same
    }
    /// The copy takes the place of the original, which is dropped.
    pub fn clone_over(&mut self) -> Option<String> {
        self.on(|s, _, _| {
            if let Subject::R(c) = s {
                let d = c.clone();
                *s = Subject::R(d);
            }
            Ok(())
        })
    }
    /// The host gives the core up: all of its memory must come back.
    pub fn retire(mut self) -> Option<String> {
        let s = self.s.take()?;
        self.acct.run(|| match s {
            Subject::R(c) => drop(c),
            Subject::C(c) => c.delete(),
        });
        (self.acct.live != 0).then(|| format!("{} kept {} bytes of host memory after it was {}", self.name, self.acct.live, if self.name.contains('C') { "deleted" } else { "dropped" }))
    }
}

thread_local! { static WARM: Cell<bool> = const { Cell::new(false) }; }

/// Lets tables that are built on first use be built before anything is counted.
pub fn warm_up() {
    if WARM.with(|w| w.replace(true)) {
        return;
    }
    let mut r = Rng::new(7);
    for scc in [false, true] {
        let mut m = Mem::new(Map::Lin(0x2000));
        crate::run::image(&mut m, scc, 99);
        for c in [false, true] {
            if c {
                // A panic may not cross the C boundary: nothing that could lead to one.
                for a in 0..0x200u32 {
                    m.poke16(0x1000 + 2 * a, [0x4E71, 0xD040, 0x303C, 0x4241][a as usize & 3]);
                }
            }
            let mut t = Twin::new(Cpu { scc, own: false }, true, &Bus::new(m.clone()), false, c);
            t.bus.bus.limit = 60_000;
            for i in 0..200u32 {
                let mut s = crate::model::St::new();
                s.pc = 0x1000 + 2 * r.below(0x200);
                s.ssp = 0x1F00;
                s.usp = 0x1E00;
                s.sr = 0x2000;
                t.set_regs(to_regs(&s));
                if i % 5 == 0 {
                    t.exception(25 + (i % 7) as u8);
                }
                t.step([Api::I, Api::E, Api::D, Api::X][i as usize & 3], 64, false);
                if t.s.is_none() {
                    break;
                }
            }
            drop(t.retire());
        }
    }
}
