//! Cores driven by the host program in C (c/chost.c), which knows the library from the shipped headers alone.
use crate::core::{rd, ri, wr, Api};
use m68000::exception::{Exception, Vector};
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::{Registers, M68000};
use std::ffi::c_void;
use std::os::raw::c_char;

#[no_mangle]
extern "C" fn sim_read(addr: u32, size: u8, user: *mut c_void, data: &mut u32, exception: &mut u8) {
    let r = rd(addr, size, user);
    (*data, *exception) = (r.data, r.exception);
}
#[no_mangle]
extern "C" fn sim_write(addr: u32, size: u8, value: u32, user: *mut c_void, data: &mut u32, exception: &mut u8) {
    let r = wr(addr, size, value, user);
    (*data, *exception) = (r.data, r.exception);
}
#[no_mangle]
extern "C" fn sim_reset(user: *mut c_void) {
    ri(user)
}

macro_rules! decl {
    ($($new:ident $del:ident $exc:ident $step:ident $run:ident $next:ident $get:ident $set:ident;)*) => {
        extern "C" { $(
            fn $new(reset: i32) -> *mut c_void;
            fn $del(core: *mut c_void);
            fn $exc(core: *mut c_void, name: i32);
            fn $step(core: *mut c_void, api: i32, user: *mut c_void, text: *mut c_char, len: usize, out: *mut u64);
            fn $run(core: *mut c_void, kind: i32, user: *mut c_void, cycles: usize, out: *mut u64);
            fn $next(core: *mut c_void, what: i32, user: *mut c_void, out: *mut u32);
            fn $get(core: *mut c_void, live: i32, out: *mut u32);
            fn $set(core: *mut c_void, live: i32, r: *const u32);
        )* }
    };
}
decl! {
    chost_mc68000_new chost_mc68000_delete chost_mc68000_exception chost_mc68000_step chost_mc68000_run chost_mc68000_next chost_mc68000_get chost_mc68000_set;
    chost_scc68070_new chost_scc68070_delete chost_scc68070_exception chost_scc68070_step chost_scc68070_run chost_scc68070_next chost_scc68070_get chost_scc68070_set;
}

/// A core in the hands of the C program.
#[derive(Clone, Copy)]
pub struct CCore {
    p: *mut c_void,
    scc: bool,
}

impl CCore {
    pub fn new(scc: bool, reset: bool) -> CCore {
        let f = if scc { chost_scc68070_new } else { chost_mc68000_new };
        CCore { p: unsafe { f(reset as i32) }, scc }
    }
    pub fn delete(self) {
        let f = if self.scc { chost_scc68070_delete } else { chost_mc68000_delete };
        unsafe { f(self.p) }
    }
    /// By its place among the named vectors.
    pub fn exception(&self, v: Vector) {
        let name = crate::core::NAMED.iter().position(|x| *x == v).unwrap() as i32;
        let f = if self.scc { chost_scc68070_exception } else { chost_mc68000_exception };
        unsafe { f(self.p, name) }
    }
    /// Past the C interface.
    pub fn exception_any(&self, v: u8) {
        unsafe {
            if self.scc {
                (*(self.p as *mut M68000<Scc68070>)).exception(Exception::from(v))
            } else {
                (*(self.p as *mut M68000<Mc68000>)).exception(Exception::from(v))
            }
        }
    }
    pub fn stop(&self) -> bool {
        unsafe {
            if self.scc {
                (*(self.p as *mut M68000<Scc68070>)).stop
            } else {
                (*(self.p as *mut M68000<Mc68000>)).stop
            }
        }
    }
    /// Cycles, vector, address.
    pub fn step(&self, api: Api, user: *mut c_void, text: *mut c_char, len: usize) -> (usize, Option<u8>, u32) {
        let mut o = [0u64; 3];
        let f = if self.scc { chost_scc68070_step } else { chost_mc68000_step };
        unsafe { f(self.p, api as i32, user, text, len, o.as_mut_ptr()) };
        (o[0] as usize, if o[1] == 0 { None } else { Some(o[1] as u8) }, o[2] as u32)
    }
    pub fn run(&self, kind: i32, user: *mut c_void, n: usize) -> (usize, u8) {
        let mut o = [0u64; 2];
        let f = if self.scc { chost_scc68070_run } else { chost_mc68000_run };
        unsafe { f(self.p, kind, user, n, o.as_mut_ptr()) };
        (o[0] as usize, o[1] as u8)
    }
    pub fn next(&self, what: u8, user: *mut c_void) -> Result<u32, u8> {
        let mut o = [0u32; 2];
        let f = if self.scc { chost_scc68070_next } else { chost_mc68000_next };
        unsafe { f(self.p, what as i32, user, o.as_mut_ptr()) };
        if o[1] == 0 {
            Ok(o[0])
        } else {
            Err(o[1] as u8)
        }
    }
    pub fn regs(&self, live: bool) -> Registers {
        let mut o = [0u32; 26];
        let f = if self.scc { chost_scc68070_get } else { chost_mc68000_get };
        unsafe { f(self.p, live as i32, o.as_mut_ptr()) };
        let mut r = Registers::default();
        for i in 0..8 {
            r.d[i].0 = o[i];
        }
        for i in 0..7 {
            r.a[i].0 = o[8 + i];
        }
        (r.usp.0, r.ssp.0, r.pc.0) = (o[15], o[16], o[17]);
        let b = |i: usize| o[i] != 0;
        (r.sr.t, r.sr.s, r.sr.interrupt_mask) = (b(18), b(19), o[20] as u8);
        (r.sr.x, r.sr.n, r.sr.z, r.sr.v, r.sr.c) = (b(21), b(22), b(23), b(24), b(25));
        r
    }
    pub fn set_regs(&self, live: bool, r: Registers) {
        let mut o = [0u32; 26];
        for i in 0..8 {
            o[i] = r.d[i].0;
        }
        for i in 0..7 {
            o[8 + i] = r.a[i].0;
        }
        (o[15], o[16], o[17]) = (r.usp.0, r.ssp.0, r.pc.0);
        for (i, b) in [r.sr.t, r.sr.s, false, r.sr.x, r.sr.n, r.sr.z, r.sr.v, r.sr.c].into_iter().enumerate() {
            o[18 + i] = b as u32;
        }
        o[20] = r.sr.interrupt_mask as u32;
        let f = if self.scc { chost_scc68070_set } else { chost_mc68000_set };
        unsafe { f(self.p, live as i32, o.as_ptr()) }
    }
}
