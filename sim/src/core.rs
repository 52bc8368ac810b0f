//! The code under test, behind one interface: the Rust API and the C API, for both CPU types.
use crate::bus::*;
use crate::model::St;
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::{Exception, Vector};
use m68000::{Registers, M68000};
use m68000_ffi::{m68000_callbacks_t, m68000_memory_result_t};
use std::ffi::c_void;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Api {
    /// interpreter
    I,
    /// interpreter_exception
    E,
    /// disassembler_interpreter
    D,
    /// disassembler_interpreter_exception
    X,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Res {
    pub cycles: usize,
    /// None: the API requested the exception by itself. Some(v): returned vector, if any.
    pub vec: Option<Option<u8>>,
    pub text: Option<(u32, String)>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Panic(String),
    Runaway,
}

/// The CPU type: stack format, and whether the timing table is the user's own.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cpu {
    pub scc: bool,
    pub own: bool,
}

#[derive(Clone)]
pub enum Rust {
    M(M68000<Mc68000>),
    S(M68000<Scc68070>),
    #[cfg(feature = "own")]
    OM(M68000<crate::own::Own<false>>),
    #[cfg(feature = "own")]
    OS(M68000<crate::own::Own<true>>),
}

#[macro_export]
macro_rules! each {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            $crate::core::Rust::M($c) => $e,
            $crate::core::Rust::S($c) => $e,
            #[cfg(feature = "own")]
            $crate::core::Rust::OM($c) => $e,
            #[cfg(feature = "own")]
            $crate::core::Rust::OS($c) => $e,
        }
    };
}

pub fn quiet_panics() {
    if std::env::var_os("SIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.is::<Runaway>() {
                Err(Fail::Runaway)
            } else if let Some(s) = e.downcast_ref::<String>() {
                Err(Fail::Panic(s.clone()))
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Err(Fail::Panic(s.to_string()))
            } else {
                Err(Fail::Panic("?".into()))
            }
        }
    }
}

pub fn to_regs(s: &St) -> Registers {
    let mut r = Registers::default();
    for i in 0..8 {
        r.d[i].0 = s.d[i];
    }
    for i in 0..7 {
        r.a[i].0 = s.a[i];
    }
    r.usp.0 = s.usp;
    r.ssp.0 = s.ssp;
    r.pc.0 = s.pc;
    r.sr = s.sr.into();
    r
}

pub fn from_regs(r: &Registers, s: &mut St) {
    for i in 0..8 {
        s.d[i] = r.d[i].0;
    }
    for i in 0..7 {
        s.a[i] = r.a[i].0;
    }
    s.usp = r.usp.0;
    s.ssp = r.ssp.0;
    s.pc = r.pc.0;
    s.sr = r.sr.into();
}

impl Rust {
    pub fn new(cpu: Cpu, reset: bool) -> Self {
        #[cfg(feature = "own")]
        if cpu.own {
            return match (cpu.scc, reset) {
                (false, true) => Rust::OM(M68000::new()),
                (false, false) => Rust::OM(M68000::new_no_reset()),
                (true, true) => Rust::OS(M68000::new()),
                (true, false) => Rust::OS(M68000::new_no_reset()),
            };
        }
        match (cpu.scc, reset) {
            (false, true) => Rust::M(M68000::new()),
            (false, false) => Rust::M(M68000::new_no_reset()),
            (true, true) => Rust::S(M68000::new()),
            (true, false) => Rust::S(M68000::new_no_reset()),
        }
    }
    pub fn regs(&self) -> Registers {
        each!(self, c => c.regs)
    }
    pub fn set_regs(&mut self, r: Registers) {
        each!(self, c => c.regs = r)
    }
    pub fn stop(&self) -> bool {
        each!(self, c => c.stop)
    }
    pub fn exception(&mut self, v: u8) {
        each!(self, c => c.exception(Exception::from(v)))
    }
    pub fn step(&mut self, api: Api, bus: &mut Bus, torn: bool) -> Result<Res, Fail> {
        bus.begin();
        guard(|| {
            if torn {
                self.step_on(api, &mut Torn(bus))
            } else {
                self.step_on(api, &mut Atomic(bus))
            }
        })
    }
    pub fn step_on<M: m68000::MemoryAccess + ?Sized>(&mut self, api: Api, m: &mut M) -> Res {
        each!(self, c => match api {
            Api::I => Res { cycles: c.interpreter(m), vec: None, text: None },
            Api::E => { let (cycles, v) = c.interpreter_exception(m); Res { cycles, vec: Some(v), text: None } }
            Api::D => { let (a, t, cycles) = c.disassembler_interpreter(m); Res { cycles, vec: None, text: Some((a, t)) } }
            Api::X => { let (a, t, cycles, v) = c.disassembler_interpreter_exception(m); Res { cycles, vec: Some(v), text: Some((a, t)) } }
        })
    }
}

// ---------------------------------------------------------------------------------------------
// C interface

const MAGIC: u64 = 0x5A17_C0DE_D00D_F00D;

/// What user_data points at. The tag proves that the pointer came through unchanged.
pub struct FfiHost {
    pub magic: u64,
    pub bus: Bus,
    pub torn: bool,
    pub bad_user: bool,
}

fn res(v: Option<u32>, addr: u32, size: u8) -> m68000_memory_result_t {
    match v {
        // Unused high bits are garbage on purpose: only the low order bytes count.
        Some(d) => m68000_memory_result_t { data: d, exception: 0 },
        // Usually the documented code, at times another: any refusal is an access error.
        None => {
            let h = crate::rng::mix((addr as u64) << 8 | size as u64);
            let exception = if h & 3 != 0 { 2 } else { [1, 3, 4, 9, 24, 128, 254, 255][(h >> 8) as usize % 8] };
            m68000_memory_result_t { data: [0xDEAD_BEEF, 0, addr][(h >> 16) as usize % 3], exception }
        }
    }
}

fn host<'a>(u: *mut c_void) -> &'a mut FfiHost {
    // SAFETY: user_data is set by FfiCore::step; a wrong pointer is what the check looks for, and the
    // expected value is compared before anything is read through it.
    unsafe {
        if u as usize != EXPECT.with(|e| e.get()) {
            eprintln!("user data pointer changed");
            std::process::exit(88);
        }
        let h = &mut *(u as *mut FfiHost);
        if h.magic != MAGIC {
            std::process::exit(88);
        }
        h
    }
}

thread_local! { static EXPECT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

pub fn rd(addr: u32, size: u8, u: *mut c_void) -> m68000_memory_result_t {
    let h = host(u);
    if size == 4 && h.torn {
        let r = raw_read(&mut h.bus, addr, 2).and_then(|hi| raw_read(&mut h.bus, addr.wrapping_add(2), 2).map(|lo| hi << 16 | lo));
        return res(r, addr, size);
    }
    let junk = match size {
        1 => 0xABCD_EF00,
        2 => 0xABCD_0000,
        _ => 0,
    };
    res(raw_read(&mut h.bus, addr, size).map(|v| v | junk), addr, size)
}
pub fn wr(addr: u32, size: u8, v: u32, u: *mut c_void) -> m68000_memory_result_t {
    let h = host(u);
    if size == 4 && h.torn {
        let r = raw_write(&mut h.bus, addr, 2, v >> 16).and_then(|_| raw_write(&mut h.bus, addr.wrapping_add(2), 2, v & 0xFFFF));
        return res(r.map(|_| 0x1234), addr, size);
    }
    res(raw_write(&mut h.bus, addr, size, v).map(|_| 0x1234), addr, size)
}
extern "C" fn gb(a: u32, u: *mut c_void) -> m68000_memory_result_t {
    rd(a, 1, u)
}
extern "C" fn gw(a: u32, u: *mut c_void) -> m68000_memory_result_t {
    rd(a, 2, u)
}
extern "C" fn gl(a: u32, u: *mut c_void) -> m68000_memory_result_t {
    rd(a, 4, u)
}
extern "C" fn sb(a: u32, d: u8, u: *mut c_void) -> m68000_memory_result_t {
    wr(a, 1, d as u32, u)
}
extern "C" fn sw(a: u32, d: u16, u: *mut c_void) -> m68000_memory_result_t {
    wr(a, 2, d as u32, u)
}
extern "C" fn sl(a: u32, d: u32, u: *mut c_void) -> m68000_memory_result_t {
    wr(a, 4, d, u)
}
pub extern "C" fn ri(u: *mut c_void) {
    host(u).bus.resets += 1;
}

/// Why the host program in C could not be compiled, if the headers are to blame.
pub const CHOST_ERROR: &str = include_str!(concat!(env!("OUT_DIR"), "/chost.txt"));

/// The vectors with a name of their own.
pub const NAMED: [Vector; 45] = {
    use Vector::*;
    [
        ResetSspPc, AccessError, AddressError, IllegalInstruction, ZeroDivide, ChkInstruction, TrapVInstruction, PrivilegeViolation, Trace,
        LineAEmulator, LineFEmulator, FormatError, UninitializedInterrupt, SpuriousInterrupt, Level1Interrupt, Level2Interrupt,
        Level3Interrupt, Level4Interrupt, Level5Interrupt, Level6Interrupt, Level7Interrupt, Trap0Instruction, Trap1Instruction,
        Trap2Instruction, Trap3Instruction, Trap4Instruction, Trap5Instruction, Trap6Instruction, Trap7Instruction, Trap8Instruction,
        Trap9Instruction, Trap10Instruction, Trap11Instruction, Trap12Instruction, Trap13Instruction, Trap14Instruction,
        Trap15Instruction, Level1OnChipInterrupt, Level2OnChipInterrupt, Level3OnChipInterrupt, Level4OnChipInterrupt,
        Level5OnChipInterrupt, Level6OnChipInterrupt, Level7OnChipInterrupt, UserInterrupt,
    ]
};

pub fn vector_enum(v: u8) -> Option<Vector> {
    NAMED.iter().copied().find(|x| *x as u8 == v)
}

pub enum FfiCore {
    M(*mut M68000<Mc68000>),
    S(*mut M68000<Scc68070>),
    /// Of either type, driven by a host program in C.
    #[cfg(chost)]
    C(crate::chost::CCore),
}

macro_rules! ffi {
    ($s:expr, $c:ident, $m:ident, $sc:ident => $($a:expr),*) => {
        match $s {
            #[allow(unused_unsafe)]
            FfiCore::M($c) => { let $c = *$c; unsafe { m68000_ffi::mc68000::$m($c $(, $a)*) } }
            #[allow(unused_unsafe)]
            FfiCore::S($c) => { let $c = *$c; unsafe { m68000_ffi::scc68070::$sc($c $(, $a)*) } }
            #[cfg(chost)]
            FfiCore::C(_) => unreachable!(),
        }
    };
}

pub const BUF_GUARD: usize = 16;

impl FfiCore {
    /// A core for a host program in C, if there is one.
    pub fn new_c(scc: bool, reset: bool) -> Self {
        #[cfg(chost)]
        return FfiCore::C(crate::chost::CCore::new(scc, reset));
        #[cfg(not(chost))]
        Self::new(scc, reset)
    }
    pub fn new(scc: bool, reset: bool) -> Self {
        match (scc, reset) {
            (false, true) => FfiCore::M(m68000_ffi::mc68000::m68000_mc68000_new()),
            (false, false) => FfiCore::M(m68000_ffi::mc68000::m68000_mc68000_new_no_reset()),
            (true, true) => FfiCore::S(m68000_ffi::scc68070::m68000_scc68070_new()),
            (true, false) => FfiCore::S(m68000_ffi::scc68070::m68000_scc68070_new_no_reset()),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            #[cfg(chost)]
            FfiCore::C(_) => "C interface (program in C)",
            _ => "C interface",
        }
    }
    pub fn regs(&self) -> Registers {
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.regs(false);
        }
        ffi!(self, c, m68000_mc68000_get_registers, m68000_scc68070_get_registers =>)
    }
    pub fn regs_live(&self) -> Registers {
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.regs(true);
        }
        let p = ffi!(self, c, m68000_mc68000_registers, m68000_scc68070_registers =>);
        unsafe { *p }
    }
    pub fn set_regs(&mut self, r: Registers) {
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.set_regs(false, r);
        }
        ffi!(self, c, m68000_mc68000_set_registers, m68000_scc68070_set_registers => r)
    }
    pub fn set_regs_live(&mut self, r: Registers) {
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.set_regs(true, r);
        }
        let p = ffi!(self, c, m68000_mc68000_registers_mut, m68000_scc68070_registers_mut =>);
        unsafe { *p = r }
    }
    pub fn stop(&self) -> bool {
        unsafe {
            match self {
                FfiCore::M(c) => (**c).stop,
                FfiCore::S(c) => (**c).stop,
                #[cfg(chost)]
                FfiCore::C(c) => c.stop(),
            }
        }
    }
    pub fn exception(&mut self, v: Vector) {
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.exception(v);
        }
        ffi!(self, c, m68000_mc68000_exception, m68000_scc68070_exception => v)
    }
    /// Any vector, past the C interface, whose enumeration does not name them all.
    pub fn exception_any(&mut self, v: u8) {
        unsafe {
            match self {
                FfiCore::M(c) => (**c).exception(Exception::from(v)),
                FfiCore::S(c) => (**c).exception(Exception::from(v)),
                #[cfg(chost)]
                FfiCore::C(c) => c.exception_any(v),
            }
        }
    }
    fn cb(h: &mut FfiHost) -> m68000_callbacks_t {
        EXPECT.with(|e| e.set(h as *mut FfiHost as usize));
        m68000_callbacks_t {
            get_byte: gb,
            get_word: gw,
            get_long: gl,
            set_byte: sb,
            set_word: sw,
            set_long: sl,
            reset_instruction: ri,
            user_data: h as *mut FfiHost as *mut c_void,
        }
    }
    /// Steps through the C API. `len` is the size given for the disassembly buffer.
    /// The second value describes a violated buffer guarantee, if any.
    pub fn step(&mut self, api: Api, h: &mut FfiHost, len: usize) -> (Res, Option<String>) {
        h.bus.begin();
        let mut cb = Self::cb(h);
        let by_c = |_s: &Self, _p: *mut std::os::raw::c_char, _n: usize| -> Option<(usize, Option<u8>, u32)> {
            #[cfg(chost)]
            if let FfiCore::C(c) = _s {
                return Some(c.step(api, cb.user_data, _p, _n));
            }
            None
        };
        if let (Api::I | Api::E, Some((cycles, v, _))) = (api, if matches!(api, Api::I | Api::E) { by_c(self, std::ptr::null_mut(), 0) } else { None }) {
            return (Res { cycles, vec: (api == Api::E).then_some(v), text: None }, None);
        }
        match api {
            Api::I => {
                let cycles = ffi!(self, c, m68000_mc68000_interpreter, m68000_scc68070_interpreter => &mut cb);
                (Res { cycles, vec: None, text: None }, None)
            }
            Api::E => {
                let r = ffi!(self, c, m68000_mc68000_interpreter_exception, m68000_scc68070_interpreter_exception => &mut cb);
                (Res { cycles: r.cycles, vec: Some(if r.exception == 0 { None } else { Some(r.exception) }), text: None }, None)
            }
            Api::D | Api::X => {
                let mut buf = vec![0xA5u8; len + 2 * BUF_GUARD];
                let p = unsafe { buf.as_mut_ptr().add(BUF_GUARD) } as *mut std::os::raw::c_char;
                let (cycles, pc, vec) = if let Some((cycles, v, pc)) = by_c(self, p, len) {
                    (cycles, pc, (api == Api::X).then_some(v))
                } else if api == Api::D {
                    let r = ffi!(self, c, m68000_mc68000_disassembler_interpreter, m68000_scc68070_disassembler_interpreter => &mut cb, p, len);
                    (r.cycles, r.pc, None)
                } else {
                    let r = ffi!(self, c, m68000_mc68000_disassembler_interpreter_exception, m68000_scc68070_disassembler_interpreter_exception => &mut cb, p, len);
                    (r.cycles, r.pc, Some(if r.exception == 0 { None } else { Some(r.exception) }))
                };
                let mut bad = None;
                if buf[..BUF_GUARD].iter().chain(&buf[BUF_GUARD + len..]).any(|b| *b != 0xA5) {
                    bad = Some(format!("disassembly wrote outside the {len} byte buffer"));
                }
                let body = &buf[BUF_GUARD..BUF_GUARD + len];
                let text = match body.iter().position(|b| *b == 0) {
                    Some(n) => String::from_utf8_lossy(&body[..n]).into_owned(),
                    None => {
                        if len > 0 {
                            bad = Some(format!("disassembly not NUL-terminated within the {len} byte buffer"));
                        }
                        String::new()
                    }
                };
                (Res { cycles, vec, text: Some((pc, text)) }, bad)
            }
        }
    }
    pub fn cycle(&mut self, h: &mut FfiHost, n: usize) -> usize {
        h.bus.begin();
        let mut cb = Self::cb(h);
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.run(0, cb.user_data, n).0;
        }
        ffi!(self, c, m68000_mc68000_cycle, m68000_scc68070_cycle => &mut cb, n)
    }
    pub fn cycle_until(&mut self, h: &mut FfiHost, n: usize) -> (usize, u8) {
        h.bus.begin();
        let mut cb = Self::cb(h);
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.run(1, cb.user_data, n);
        }
        let r = ffi!(self, c, m68000_mc68000_cycle_until_exception, m68000_scc68070_cycle_until_exception => &mut cb, n);
        (r.cycles, r.exception)
    }
    pub fn run_loop(&mut self, h: &mut FfiHost) -> (usize, u8) {
        h.bus.begin();
        let mut cb = Self::cb(h);
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.run(2, cb.user_data, 0);
        }
        let r = ffi!(self, c, m68000_mc68000_loop_until_exception_stop, m68000_scc68070_loop_until_exception_stop => &mut cb);
        (r.cycles, r.exception)
    }
    pub fn next(&mut self, h: &mut FfiHost, what: u8) -> Result<u32, u8> {
        h.bus.begin();
        let mut cb = Self::cb(h);
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.next(what, cb.user_data);
        }
        let r = match what {
            0 => ffi!(self, c, m68000_mc68000_get_next_word, m68000_scc68070_get_next_word => &mut cb),
            1 => ffi!(self, c, m68000_mc68000_get_next_long, m68000_scc68070_get_next_long => &mut cb),
            _ => ffi!(self, c, m68000_mc68000_peek_next_word, m68000_scc68070_peek_next_word => &mut cb),
        };
        if r.exception == 0 {
            Ok(r.data)
        } else {
            Err(r.exception)
        }
    }
    pub fn delete(self) {
        #[cfg(chost)]
        if let FfiCore::C(c) = self {
            return c.delete();
        }
        ffi!(&self, c, m68000_mc68000_delete, m68000_scc68070_delete =>)
    }
}

pub fn ffi_host(bus: Bus, torn: bool) -> Box<FfiHost> {
    Box::new(FfiHost { magic: MAGIC, bus, torn, bad_user: false })
}

impl Rust {
    pub fn next(&mut self, bus: &mut Bus, torn: bool, what: u8) -> Result<Result<u32, u8>, Fail> {
        bus.begin();
        fn go<M: m68000::MemoryAccess + ?Sized>(s: &mut Rust, m: &mut M, what: u8) -> Result<u32, u8> {
            each!(s, c => match what {
                0 => c.get_next_word(m).map(|v| v as u32),
                1 => c.get_next_long(m),
                _ => c.peek_next_word(m).map(|v| v as u32),
            })
        }
        guard(|| if torn { go(self, &mut Torn(bus), what) } else { go(self, &mut Atomic(bus), what) })
    }
    pub fn cycle(&mut self, bus: &mut Bus, torn: bool, n: usize) -> Result<usize, Fail> {
        bus.begin();
        guard(|| each!(self, c => if torn { c.cycle(&mut Torn(bus), n) } else { c.cycle(&mut Atomic(bus), n) }))
    }
    pub fn cycle_until(&mut self, bus: &mut Bus, torn: bool, n: usize) -> Result<(usize, Option<u8>), Fail> {
        bus.begin();
        guard(|| each!(self, c => if torn { c.cycle_until_exception(&mut Torn(bus), n) } else { c.cycle_until_exception(&mut Atomic(bus), n) }))
    }
    pub fn run_loop(&mut self, bus: &mut Bus, torn: bool) -> Result<(usize, Option<u8>), Fail> {
        bus.begin();
        guard(|| each!(self, c => if torn { c.loop_until_exception_stop(&mut Torn(bus)) } else { c.loop_until_exception_stop(&mut Atomic(bus)) }))
    }
}
