//! Executable reference model of the MC68000 / SCC68070, written from the programmer's manual,
//! independent of the code under test. One call of [`step`] predicts one call of an interpreter method.
use crate::bus::{dev_value, Acc, Cell, Mem};
use crate::core::Cpu;
use crate::timing::{self, Tim};

pub type E<T> = Result<T, u8>;

pub const C: u16 = 1;
pub const V: u16 = 2;
pub const Z: u16 = 4;
pub const N: u16 = 8;
pub const X: u16 = 16;
pub const CCR: u16 = 0x1F;
pub const S: u16 = 0x2000;
pub const T: u16 = 0x8000;
pub const SR_MASK: u16 = 0xA71F;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Pend(pub [u64; 4]);
impl Pend {
    pub fn has(&self, v: u8) -> bool {
        self.0[v as usize >> 6] >> (v & 63) & 1 != 0
    }
    pub fn set(&mut self, v: u8) {
        self.0[v as usize >> 6] |= 1 << (v & 63)
    }
    pub fn del(&mut self, v: u8) {
        self.0[v as usize >> 6] &= !(1 << (v & 63))
    }
    pub fn clear(&mut self) {
        self.0 = [0; 4]
    }
    pub fn empty(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn list(&self) -> Vec<u8> {
        (0..=255u8).filter(|v| self.has(*v)).collect()
    }
}

pub fn is_irq(v: u8) -> bool {
    matches!(v, 25..=31 | 57..=63)
}

/// Interrupts that the mask cannot inhibit: level 7, and the vectored ones that carry no level.
pub fn admitted(v: u8, sr: u16) -> bool {
    if is_irq(v) {
        let l = (v & 7) as u16;
        l == 7 || l > sr >> 8 & 7
    } else {
        true
    }
}

/// What a pending exception does to a stopped core: Some(true) wakes it, Some(false) does not, None unspecified.
pub fn wakes(v: u8, sr: u16) -> Option<bool> {
    match v {
        0 | 9 => Some(true),
        24 => None,
        64..=255 => Some(true),
        _ if is_irq(v) => Some(admitted(v, sr)),
        _ => Some(false),
    }
}

/// Documented priority classes; a lower class has its handler run first.
pub fn class(v: u8) -> u32 {
    match v {
        3 => 0,
        2 => 1,
        9 => 2,
        24..=31 | 57..=63 | 64..=255 => 3,
        4 => 4,
        8 => 5,
        _ => 6,
    }
}

/// Must `a` be stacked before `b` (so that the handler of `b` runs first)?
pub fn before(a: u8, b: u8) -> bool {
    let (ca, cb) = (class(a), class(b));
    if ca != cb {
        return ca > cb;
    }
    ca == 3 && is_irq(a) && is_irq(b) && (a & 7) < (b & 7)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct St {
    pub d: [u32; 8],
    pub a: [u32; 7],
    pub usp: u32,
    pub ssp: u32,
    pub sr: u16,
    pub pc: u32,
    pub stop: bool,
    pub ir: u16,
    pub ir_known: bool,
    pub pend: Pend,
}

impl St {
    pub fn new() -> Self {
        St { d: [0; 8], a: [0; 7], usp: 0, ssp: 0, sr: 0x2700, pc: 0, stop: false, ir: 0xFFFF, ir_known: false, pend: Pend::default() }
    }
    pub fn sp(&self) -> u32 {
        if self.sr & S != 0 {
            self.ssp
        } else {
            self.usp
        }
    }
    pub fn areg(&self, r: u8) -> u32 {
        if r < 7 {
            self.a[r as usize]
        } else {
            self.sp()
        }
    }
    /// The host requests an exception. Returns false when the effect on a stopped core is unspecified.
    pub fn request(&mut self, v: u8) -> bool {
        self.pend.set(v);
        if self.stop {
            match wakes(v, self.sr) {
                Some(true) => self.stop = false,
                Some(false) => {}
                None => return false,
            }
        }
        true
    }
}

pub struct Port<'a> {
    pub mem: &'a Mem,
    pub torn: bool,
    /// What-if mode: refused and misaligned accesses deliver this byte and execution goes on.
    pub fill: Option<u8>,
    pub log: Vec<Acc>,
    pub w: Vec<(u32, u8)>,
    pub devr: Vec<(u32, u8)>,
    pub tag: u8,
    pub odd: bool,
    pub refused: bool,
    pub resets: u32,
}

impl<'a> Port<'a> {
    pub fn new(mem: &'a Mem, torn: bool, fill: Option<u8>) -> Self {
        Port { mem, torn, fill, log: Vec::with_capacity(24), w: Vec::new(), devr: Vec::new(), tag: 0, odd: false, refused: false, resets: 0 }
    }
    fn get(&mut self, a: u32) -> u8 {
        let ov = self.w.iter().rev().find(|x| x.0 == a).map(|x| x.1);
        match self.mem.cell(a) {
            Some(Cell::Dev(o)) => {
                let (r, l) = self.mem.dev_state(o);
                let n = self.devr.iter_mut().find(|x| x.0 == a);
                let extra = n.as_ref().map_or(0, |x| x.1);
                let v = dev_value(o, r.wrapping_add(extra), ov.unwrap_or(l));
                match n {
                    Some(x) => x.1 = x.1.wrapping_add(1),
                    None => self.devr.push((a, 1)),
                }
                v
            }
            _ => ov.unwrap_or_else(|| self.mem.peek(a)),
        }
    }
    fn unit_r(&mut self, addr: u32, size: u8) -> E<u32> {
        let mut acc = Acc { w: false, addr, size, val: 0, ok: true, tag: self.tag };
        if !(0..size as u32).all(|i| self.mem.readable(addr.wrapping_add(i))) {
            acc.ok = false;
            self.refused = true;
            self.log.push(acc);
            return match self.fill {
                None => Err(2),
                Some(f) => Ok(u32::from_be_bytes([f; 4]) >> (32 - 8 * size as u32)),
            };
        }
        for i in 0..size as u32 {
            acc.val = acc.val << 8 | self.get(addr.wrapping_add(i)) as u32;
        }
        self.log.push(acc);
        Ok(acc.val)
    }
    fn unit_w(&mut self, addr: u32, size: u8, val: u32) -> E<()> {
        let mut acc = Acc { w: true, addr, size, val, ok: true, tag: self.tag };
        if !(0..size as u32).all(|i| self.mem.writable(addr.wrapping_add(i))) {
            acc.ok = false;
            self.refused = true;
            self.log.push(acc);
            return if self.fill.is_some() { Ok(()) } else { Err(2) };
        }
        for i in 0..size as u32 {
            let sh = 8 * (size as u32 - 1 - i);
            self.w.push((addr.wrapping_add(i), (val >> sh) as u8));
        }
        self.log.push(acc);
        Ok(())
    }
    pub fn read(&mut self, addr: u32, size: u8) -> E<u32> {
        if size > 1 && addr & 1 != 0 {
            self.odd = true;
            return match self.fill {
                None => Err(3),
                Some(f) => Ok(u32::from_be_bytes([f; 4]) >> (32 - 8 * size as u32)),
            };
        }
        if size == 4 && self.torn {
            let h = self.unit_r(addr, 2)?;
            let l = self.unit_r(addr.wrapping_add(2), 2)?;
            return Ok(h << 16 | l);
        }
        self.unit_r(addr, size)
    }
    pub fn write(&mut self, addr: u32, size: u8, val: u32) -> E<()> {
        if size > 1 && addr & 1 != 0 {
            self.odd = true;
            return if self.fill.is_some() { Ok(()) } else { Err(3) };
        }
        if size == 4 && self.torn {
            self.unit_w(addr, 2, val >> 16)?;
            return self.unit_w(addr.wrapping_add(2), 2, val & 0xFFFF);
        }
        self.unit_w(addr, size, val)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum K {
    OriCcr, OriSr, Ori, AndiCcr, AndiSr, Andi, Subi, Addi, EoriCcr, EoriSr, Eori, Cmpi,
    Btst, Bchg, Bclr, Bset, Movep, Move, Movea, MoveFromSr, MoveToCcr, MoveToSr,
    Negx, Clr, Neg, Not, Nbcd, Swap, Pea, Ext, Movem, Tas, Tst, Illegal, Trap, Link, Unlk,
    MoveUsp, Reset, Nop, Stop, Rte, Rts, Trapv, Rtr, Jsr, Jmp, Lea, Chk,
    Addq, Subq, Scc, Dbcc, Bra, Bsr, Bcc, Moveq, Or, Divu, Divs, Sbcd,
    Sub, Suba, Subx, Cmp, Cmpa, Cmpm, Eor, And, Mulu, Muls, Abcd, Exg, Add, Adda, Addx,
    Asm, Lsm, Roxm, Rom, Asr, Lsr, Roxr, Ror, LineA, LineF, Unknown,
}
pub const N_K: usize = K::Unknown as usize + 1;

pub fn k_from(i: usize) -> K {
    assert!(i < N_K);
    // SAFETY: K is repr(u8) and contiguous.
    unsafe { std::mem::transmute(i as u8) }
}

pub fn privileged(k: K) -> bool {
    matches!(k, K::AndiSr | K::EoriSr | K::OriSr | K::MoveToSr | K::MoveUsp | K::Reset | K::Rte | K::Stop)
}

/// How many words the instruction starting with this opcode takes, as the manual's formats say.
pub fn words(op: u16) -> u32 {
    let ea = |mode: u16, reg: u16, long: bool| match (mode, reg) {
        (5, _) | (6, _) | (7, 0) | (7, 2) | (7, 3) => 1,
        (7, 1) => 2,
        (7, 4) => 1 + long as u32,
        _ => 0,
    };
    let src = |long: bool| ea(op >> 3 & 7, op & 7, long);
    let long = op >> 6 & 3 == 2;
    match kind(op) {
        K::OriCcr | K::OriSr | K::AndiCcr | K::AndiSr | K::EoriCcr | K::EoriSr | K::Movep | K::Link | K::Stop | K::Dbcc => 2,
        K::Ori | K::Andi | K::Subi | K::Addi | K::Eori | K::Cmpi => 2 + long as u32 + src(long),
        K::Btst | K::Bchg | K::Bclr | K::Bset => 1 + (op & 0x100 == 0) as u32 + src(false),
        K::Move | K::Movea => {
            let l = op >> 12 == 2;
            1 + src(l) + ea(op >> 6 & 7, op >> 9 & 7, l)
        }
        K::Movem => 2 + src(false),
        K::Bra | K::Bsr | K::Bcc => 1 + (op & 0xFF == 0) as u32,
        K::Adda | K::Suba | K::Cmpa => 1 + src(op & 0x100 != 0),
        K::Or | K::And | K::Add | K::Sub | K::Cmp | K::Eor => 1 + src(long),
        K::MoveFromSr | K::MoveToCcr | K::MoveToSr | K::Negx | K::Clr | K::Neg | K::Not | K::Nbcd | K::Pea | K::Tas | K::Tst | K::Jsr | K::Jmp | K::Lea | K::Chk
        | K::Addq | K::Subq | K::Scc | K::Divu | K::Divs | K::Mulu | K::Muls | K::Asm | K::Lsm | K::Roxm | K::Rom => 1 + src(false),
        _ => 1,
    }
}

// Effective address classes, as bits: 0-6 modes, 7.. = mode 7 registers 0-4.
fn eabit(mode: u8, reg: u8) -> u16 {
    if mode < 7 {
        1 << mode
    } else if reg < 5 {
        1 << (7 + reg)
    } else {
        0
    }
}
const M_ALL: u16 = 0x0FFF;
const M_DATA: u16 = 0x0FFD;
const M_DATA_NOIMM: u16 = 0x07FD;
const M_ALT: u16 = 0x01FF;
const M_DATALT: u16 = 0x01FD;
const M_MEMALT: u16 = 0x01FC;
const M_CTRL: u16 = 0x07E4;
const M_MOVEM_TO: u16 = 0x01F4;
const M_MOVEM_FROM: u16 = 0x07EC;

pub fn kind(op: u16) -> K {
    let mode = (op >> 3 & 7) as u8;
    let reg = (op & 7) as u8;
    let ea = |m: u16| eabit(mode, reg) & m != 0;
    let sz = op >> 6 & 3;
    let up3 = (op >> 9 & 7) as u8;
    match op >> 12 {
        0 => {
            if op & 0x0100 != 0 {
                if mode == 1 {
                    return K::Movep;
                }
                return match sz {
                    0 if ea(M_DATA) => K::Btst,
                    1 if ea(M_DATALT) => K::Bchg,
                    2 if ea(M_DATALT) => K::Bclr,
                    3 if ea(M_DATALT) => K::Bset,
                    _ => K::Unknown,
                };
            }
            if up3 == 4 {
                return match sz {
                    0 if ea(M_DATA_NOIMM) => K::Btst,
                    1 if ea(M_DATALT) => K::Bchg,
                    2 if ea(M_DATALT) => K::Bclr,
                    3 if ea(M_DATALT) => K::Bset,
                    _ => K::Unknown,
                };
            }
            match op {
                0x003C => return K::OriCcr,
                0x007C => return K::OriSr,
                0x023C => return K::AndiCcr,
                0x027C => return K::AndiSr,
                0x0A3C => return K::EoriCcr,
                0x0A7C => return K::EoriSr,
                _ => {}
            }
            if sz == 3 || !ea(M_DATALT) {
                return K::Unknown;
            }
            match up3 {
                0 => K::Ori,
                1 => K::Andi,
                2 => K::Subi,
                3 => K::Addi,
                5 => K::Eori,
                6 => K::Cmpi,
                _ => K::Unknown,
            }
        }
        1..=3 => {
            let byte = op >> 12 == 1;
            if !ea(if byte { M_DATA } else { M_ALL }) {
                return K::Unknown;
            }
            let dm = (op >> 6 & 7) as u8;
            if dm == 1 {
                return if byte { K::Unknown } else { K::Movea };
            }
            if eabit(dm, up3) & M_DATALT != 0 {
                K::Move
            } else {
                K::Unknown
            }
        }
        4 => {
            if op & 0x0100 != 0 {
                return match sz {
                    3 if ea(M_CTRL) => K::Lea,
                    2 if ea(M_DATA) => K::Chk,
                    _ => K::Unknown,
                };
            }
            match (up3, sz) {
                (0, 3) if ea(M_DATALT) => K::MoveFromSr,
                (0, 0..=2) if ea(M_DATALT) => K::Negx,
                (1, 0..=2) if ea(M_DATALT) => K::Clr,
                (2, 3) if ea(M_DATA) => K::MoveToCcr,
                (2, 0..=2) if ea(M_DATALT) => K::Neg,
                (3, 3) if ea(M_DATA) => K::MoveToSr,
                (3, 0..=2) if ea(M_DATALT) => K::Not,
                (4, 0) if ea(M_DATALT) => K::Nbcd,
                (4, 1) if mode == 0 => K::Swap,
                (4, 1) if ea(M_CTRL) => K::Pea,
                (4, 2..=3) if mode == 0 => K::Ext,
                (4, 2..=3) if ea(M_MOVEM_TO) => K::Movem,
                (5, 3) if op == 0x4AFC => K::Illegal,
                (5, 3) if ea(M_DATALT) => K::Tas,
                (5, 0..=2) if ea(M_DATALT) => K::Tst,
                (6, 2..=3) if ea(M_MOVEM_FROM) => K::Movem,
                (7, 1) => match op & 0x3F {
                    0x00..=0x0F => K::Trap,
                    0x10..=0x17 => K::Link,
                    0x18..=0x1F => K::Unlk,
                    0x20..=0x2F => K::MoveUsp,
                    0x30 => K::Reset,
                    0x31 => K::Nop,
                    0x32 => K::Stop,
                    0x33 => K::Rte,
                    0x35 => K::Rts,
                    0x36 => K::Trapv,
                    0x37 => K::Rtr,
                    _ => K::Unknown,
                },
                (7, 2) if ea(M_CTRL) => K::Jsr,
                (7, 3) if ea(M_CTRL) => K::Jmp,
                _ => K::Unknown,
            }
        }
        5 => {
            if sz == 3 {
                if mode == 1 {
                    K::Dbcc
                } else if ea(M_DATALT) {
                    K::Scc
                } else {
                    K::Unknown
                }
            } else if ea(if sz == 0 { M_DATALT } else { M_ALT }) {
                if op & 0x100 == 0 {
                    K::Addq
                } else {
                    K::Subq
                }
            } else {
                K::Unknown
            }
        }
        6 => match op >> 8 & 15 {
            0 => K::Bra,
            1 => K::Bsr,
            _ => K::Bcc,
        },
        7 => {
            if op & 0x100 == 0 {
                K::Moveq
            } else {
                K::Unknown
            }
        }
        8 | 0xC => {
            let or = op >> 12 == 8;
            if sz == 3 {
                if !ea(M_DATA) {
                    return K::Unknown;
                }
                return match (or, op & 0x100 != 0) {
                    (true, false) => K::Divu,
                    (true, true) => K::Divs,
                    (false, false) => K::Mulu,
                    (false, true) => K::Muls,
                };
            }
            if op & 0x100 == 0 {
                return if ea(M_DATA) { if or { K::Or } else { K::And } } else { K::Unknown };
            }
            if mode < 2 {
                if sz == 0 {
                    return if or { K::Sbcd } else { K::Abcd };
                }
                if !or && (sz == 1 || mode == 1) {
                    return K::Exg;
                }
                return K::Unknown;
            }
            if ea(M_MEMALT) {
                if or {
                    K::Or
                } else {
                    K::And
                }
            } else {
                K::Unknown
            }
        }
        9 | 0xD => {
            let sub = op >> 12 == 9;
            if sz == 3 {
                return if ea(M_ALL) { if sub { K::Suba } else { K::Adda } } else { K::Unknown };
            }
            if op & 0x100 == 0 {
                return if ea(if sz == 0 { M_DATA } else { M_ALL }) { if sub { K::Sub } else { K::Add } } else { K::Unknown };
            }
            if mode < 2 {
                return if sub { K::Subx } else { K::Addx };
            }
            if ea(M_MEMALT) {
                if sub {
                    K::Sub
                } else {
                    K::Add
                }
            } else {
                K::Unknown
            }
        }
        0xA => K::LineA,
        0xB => {
            if sz == 3 {
                return if ea(M_ALL) { K::Cmpa } else { K::Unknown };
            }
            if op & 0x100 == 0 {
                return if ea(if sz == 0 { M_DATA } else { M_ALL }) { K::Cmp } else { K::Unknown };
            }
            if mode == 1 {
                return K::Cmpm;
            }
            if ea(M_DATALT) {
                K::Eor
            } else {
                K::Unknown
            }
        }
        0xE => {
            if sz == 3 {
                if op & 0x0800 != 0 || !ea(M_MEMALT) {
                    return K::Unknown;
                }
                return match op >> 9 & 3 {
                    0 => K::Asm,
                    1 => K::Lsm,
                    2 => K::Roxm,
                    _ => K::Rom,
                };
            }
            match op >> 3 & 3 {
                0 => K::Asr,
                1 => K::Lsr,
                2 => K::Roxr,
                _ => K::Ror,
            }
        }
        _ => K::LineF,
    }
}

#[derive(Clone, Copy)]
struct Am {
    mode: u8,
    reg: u8,
    ext: u32,
    base: u32,
}

#[derive(Clone, Copy)]
enum Loc {
    D(u8),
    A(u8),
    M(u32),
    I(u32),
}

struct Ctx<'a, 'b> {
    s: St,
    p: &'b mut Port<'a>,
    scc: bool,
    tim: &'static Tim,
    hist: Vec<(u8, u32)>,
    pch: Vec<u32>,
    und: u16,
    free_d: Option<(u8, u32)>,
    free_m: Option<u32>,
    op: u16,
    t: usize,
    lenient_mem: bool,
    late: bool,
}

fn msk(sz: u8) -> u32 {
    match sz {
        1 => 0xFF,
        2 => 0xFFFF,
        _ => 0xFFFF_FFFF,
    }
}
fn msb(sz: u8) -> u32 {
    1 << (8 * sz as u32 - 1)
}
fn sext(v: u32, sz: u8) -> u32 {
    match sz {
        1 => v as u8 as i8 as i32 as u32,
        2 => v as u16 as i16 as i32 as u32,
        _ => v,
    }
}

pub fn cond(sr: u16, cc: u16) -> bool {
    let c = sr & C != 0;
    let v = sr & V != 0;
    let z = sr & Z != 0;
    let n = sr & N != 0;
    let r = match cc >> 1 {
        0 => true,
        1 => !c && !z,
        2 => !c,
        3 => !z,
        4 => !v,
        5 => !n,
        6 => n == v,
        _ => n == v && !z,
    };
    r ^ (cc & 1 != 0)
}

impl Ctx<'_, '_> {
    fn rid(&self, r: u8) -> u8 {
        if r < 7 {
            r
        } else if self.s.sr & S != 0 {
            8
        } else {
            7
        }
    }
    fn seta(&mut self, r: u8, v: u32) {
        let id = self.rid(r);
        self.hist.push((id, v));
        match id {
            7 => self.s.usp = v,
            8 => self.s.ssp = v,
            _ => self.s.a[id as usize] = v,
        }
    }
    fn setd(&mut self, r: u8, sz: u8, v: u32) {
        let m = msk(sz);
        let d = &mut self.s.d[r as usize];
        *d = *d & !m | v & m;
    }
    fn fetch(&mut self) -> E<u16> {
        let tag = self.p.tag;
        self.p.tag = 1;
        let r = self.p.read(self.s.pc, 2);
        self.p.tag = tag;
        self.s.pc = self.s.pc.wrapping_add(2);
        r.map(|v| v as u16)
    }
    fn fetch32(&mut self) -> E<u32> {
        let h = self.fetch()? as u32;
        Ok(h << 16 | self.fetch()? as u32)
    }
    fn am(&mut self, mode: u8, reg: u8, sz: u8) -> E<Am> {
        let mut m = Am { mode, reg, ext: 0, base: self.s.pc };
        match (mode, reg) {
            (5, _) | (6, _) | (7, 0) | (7, 2) | (7, 3) => m.ext = self.fetch()? as u32,
            (7, 1) => m.ext = self.fetch32()?,
            (7, 4) => m.ext = if sz == 4 { self.fetch32()? } else { self.fetch()? as u32 & msk(sz) },
            _ => {}
        }
        Ok(m)
    }
    fn ea_op(&mut self, sz: u8) -> E<Am> {
        self.am((self.op >> 3 & 7) as u8, (self.op & 7) as u8, sz)
    }
    fn index(&self, ext: u32) -> u32 {
        let r = (ext >> 12 & 7) as u8;
        let v = if ext & 0x8000 != 0 { self.s.areg(r) } else { self.s.d[r as usize] };
        let v = if ext & 0x0800 != 0 { v } else { sext(v, 2) };
        v.wrapping_add(sext(ext, 1))
    }
    fn step_of(&self, reg: u8, sz: u8) -> u32 {
        if reg == 7 && sz == 1 {
            2
        } else {
            sz as u32
        }
    }
    /// Resolves an addressing mode, with its register side effects and calculation time.
    fn loc(&mut self, m: Am, sz: u8) -> Loc {
        let l4 = if sz == 4 { 4 } else { 0 };
        let (loc, t) = match (m.mode, m.reg) {
            (0, r) => return Loc::D(r),
            (1, r) => return Loc::A(r),
            (2, r) => (Loc::M(self.s.areg(r)), self.tim.ea_ari),
            (3, r) => {
                let a = self.s.areg(r);
                self.seta(r, a.wrapping_add(self.step_of(r, sz)));
                (Loc::M(a), self.tim.ea_ariwpo)
            }
            (4, r) => {
                let a = self.s.areg(r).wrapping_sub(self.step_of(r, sz));
                self.seta(r, a);
                (Loc::M(a), self.tim.ea_ariwpr)
            }
            (5, r) => (Loc::M(self.s.areg(r).wrapping_add(sext(m.ext, 2))), self.tim.ea_ariwd),
            (6, r) => (Loc::M(self.s.areg(r).wrapping_add(self.index(m.ext))), self.tim.ea_ariwi8),
            (7, 0) => (Loc::M(sext(m.ext, 2)), self.tim.ea_absshort),
            (7, 1) => (Loc::M(m.ext), self.tim.ea_abslong),
            (7, 2) => (Loc::M(m.base.wrapping_add(sext(m.ext, 2))), self.tim.ea_pciwd),
            (7, 3) => (Loc::M(m.base.wrapping_add(self.index(m.ext))), self.tim.ea_pciwi8),
            _ => (Loc::I(m.ext), self.tim.ea_immediate),
        };
        self.t += t + l4;
        loc
    }
    fn ctrl(&mut self, m: Am) -> u32 {
        let t = self.t;
        let l = self.loc(m, 2);
        self.t = t;
        match l {
            Loc::M(a) => a,
            _ => unreachable!(),
        }
    }
    fn rd(&mut self, l: Loc, sz: u8) -> E<u32> {
        match l {
            Loc::D(r) => Ok(self.s.d[r as usize] & msk(sz)),
            Loc::A(r) => Ok(self.s.areg(r) & msk(sz)),
            Loc::I(v) => Ok(v & msk(sz)),
            Loc::M(a) => self.p.read(a, sz),
        }
    }
    fn wr(&mut self, l: Loc, sz: u8, v: u32) -> E<()> {
        match l {
            Loc::D(r) => {
                self.setd(r, sz, v);
                Ok(())
            }
            Loc::A(r) => {
                self.seta(r, sext(v, sz));
                Ok(())
            }
            Loc::M(a) => self.p.write(a, sz, v & msk(sz)),
            Loc::I(_) => unreachable!(),
        }
    }
    fn push(&mut self, sz: u8, v: u32) -> E<()> {
        let a = self.s.sp().wrapping_sub(sz as u32);
        self.seta(7, a);
        let r = self.p.write(a, sz, v);
        if self.late && r.is_err() {
            self.seta(7, a.wrapping_add(sz as u32));
        }
        r
    }
    fn pop(&mut self, sz: u8) -> E<u32> {
        let a = self.s.sp();
        self.seta(7, a.wrapping_add(sz as u32));
        self.p.read(a, sz)
    }
    fn flag(&mut self, f: u16, on: bool) {
        if on {
            self.s.sr |= f
        } else {
            self.s.sr &= !f
        }
    }
    fn is(&self, f: u16) -> bool {
        self.s.sr & f != 0
    }
    fn logic(&mut self, v: u32, sz: u8) {
        self.flag(N, v & msb(sz) != 0);
        self.flag(Z, v & msk(sz) == 0);
        self.flag(V | C, false);
    }
    fn addf(&mut self, s: u32, d: u32, sz: u8, ext: bool) -> u32 {
        let x = (ext && self.is(X)) as u64;
        let m = msk(sz) as u64;
        let full = (s as u64 & m) + (d as u64 & m) + x;
        let r = (full & m) as u32;
        let b = msb(sz);
        self.flag(C | X, full > m);
        self.flag(V, (s ^ r) & (d ^ r) & b != 0);
        self.flag(N, r & b != 0);
        if !ext {
            self.flag(Z, r == 0)
        } else if r != 0 {
            self.flag(Z, false)
        }
        r
    }
    fn subf(&mut self, s: u32, d: u32, sz: u8, ext: bool, cmp: bool) -> u32 {
        let x = (ext && self.is(X)) as u64;
        let m = msk(sz) as u64;
        let (s64, d64) = (s as u64 & m, d as u64 & m);
        let r = (d64.wrapping_sub(s64).wrapping_sub(x) & m) as u32;
        let b = msb(sz);
        let borrow = s64 + x > d64;
        self.flag(C, borrow);
        if !cmp {
            self.flag(X, borrow);
        }
        self.flag(V, (s ^ d) & (d ^ r) & b != 0);
        self.flag(N, r & b != 0);
        if !ext {
            self.flag(Z, r == 0)
        } else if r != 0 {
            self.flag(Z, false)
        }
        r
    }
    /// Decimal add or subtract; None when a digit is not decimal (result undefined).
    fn bcd(&mut self, s: u32, d: u32, sub: bool) -> (u32, bool) {
        let ok = s & 15 < 10 && s >> 4 < 10 && d & 15 < 10 && d >> 4 < 10;
        let x = self.is(X) as i32;
        let sv = (s >> 4) as i32 * 10 + (s & 15) as i32;
        let dv = (d >> 4) as i32 * 10 + (d & 15) as i32;
        let r = if sub { dv - sv - x } else { dv + sv + x };
        let carry = !(0..=99).contains(&r);
        let r = ((r + 200) % 100) as u32;
        let r = r / 10 << 4 | r % 10;
        self.flag(C | X, carry);
        if r != 0 {
            self.flag(Z, false);
        }
        self.und |= N | V;
        if !ok {
            self.und |= X | Z | C;
        }
        (r, ok)
    }
    fn need_super(&self) -> E<()> {
        if self.s.sr & S != 0 {
            Ok(())
        } else {
            Err(8)
        }
    }
    fn regtime(&self, l: bool, inreg: bool, rbw: usize, rl: usize, mbw: usize, ml: usize) -> usize {
        match (inreg, l) {
            (true, false) => rbw,
            (true, true) => rl,
            (false, false) => mbw,
            (false, true) => ml,
        }
    }

    fn exec(&mut self, k: K) -> E<usize> {
        let op = self.op;
        let tm = self.tim;
        let sz: u8 = match op >> 6 & 3 {
            0 => 1,
            1 => 2,
            _ => 4,
        };
        let l = sz == 4;
        let r9 = (op >> 9 & 7) as u8;
        let r0 = (op & 7) as u8;
        let mode = (op >> 3 & 7) as u8;
        let isreg = mode == 0;
        let dir = op & 0x100 != 0;
        match k {
            K::LineA => Err(10),
            K::LineF => Err(11),
            K::Unknown | K::Illegal => Err(4),
            K::OriCcr | K::AndiCcr | K::EoriCcr => {
                let i = self.fetch()?;
                let c = self.s.sr & CCR;
                let (n, t) = match k {
                    K::OriCcr => (c | i, tm.oriccr),
                    K::AndiCcr => (c & i, tm.andiccr),
                    _ => (c ^ i, tm.eoriccr),
                };
                self.s.sr = self.s.sr & !CCR | n & CCR;
                Ok(t)
            }
            K::OriSr | K::AndiSr | K::EoriSr => {
                let i = self.fetch()?;
                self.need_super()?;
                let (n, t) = match k {
                    K::OriSr => (self.s.sr | i, tm.orisr),
                    K::AndiSr => (self.s.sr & i, tm.andisr),
                    _ => (self.s.sr ^ i, tm.eorisr),
                };
                self.s.sr = n & SR_MASK;
                Ok(t)
            }
            K::Ori | K::Andi | K::Eori | K::Addi | K::Subi | K::Cmpi => {
                let i = if l { self.fetch32()? } else { self.fetch()? as u32 & msk(sz) };
                let m = self.ea_op(sz)?;
                self.t = match k {
                    K::Ori => self.regtime(l, isreg, tm.ori_reg_bw, tm.ori_reg_l, tm.ori_mem_bw, tm.ori_mem_l),
                    K::Andi => self.regtime(l, isreg, tm.andi_reg_bw, tm.andi_reg_l, tm.andi_mem_bw, tm.andi_mem_l),
                    K::Eori => self.regtime(l, isreg, tm.eori_reg_bw, tm.eori_reg_l, tm.eori_mem_bw, tm.eori_mem_l),
                    K::Addi => self.regtime(l, isreg, tm.addi_reg_bw, tm.addi_reg_l, tm.addi_mem_bw, tm.addi_mem_l),
                    K::Subi => self.regtime(l, isreg, tm.subi_reg_bw, tm.subi_reg_l, tm.subi_mem_bw, tm.subi_mem_l),
                    _ => self.regtime(l, isreg, tm.cmpi_reg_bw, tm.cmpi_reg_l, tm.cmpi_mem_bw, tm.cmpi_mem_l),
                };
                self.p.tag = 2;
                let loc = self.loc(m, sz);
                let d = self.rd(loc, sz)?;
                let r = match k {
                    K::Ori => d | i,
                    K::Andi => d & i,
                    K::Eori => d ^ i,
                    K::Addi => self.addf(i, d, sz, false),
                    K::Subi => self.subf(i, d, sz, false, false),
                    _ => {
                        self.subf(i, d, sz, false, true);
                        return Ok(self.t);
                    }
                };
                if matches!(k, K::Ori | K::Andi | K::Eori) {
                    self.logic(r, sz);
                }
                self.wr(loc, sz, r)?;
                Ok(self.t)
            }
            K::Btst | K::Bchg | K::Bclr | K::Bset => {
                let n = if dir { self.s.d[r9 as usize] } else { self.fetch()? as u32 & 0xFF };
                let bsz = if isreg { 4 } else { 1 };
                let m = self.ea_op(1)?;
                self.t = match (k, dir, isreg) {
                    (K::Btst, true, true) => tm.btst_dyn_reg,
                    (K::Btst, true, false) => tm.btst_dyn_mem,
                    (K::Btst, false, true) => tm.btst_sta_reg,
                    (K::Btst, false, false) => tm.btst_sta_mem,
                    (K::Bchg, true, true) => tm.bchg_dyn_reg,
                    (K::Bchg, true, false) => tm.bchg_dyn_mem,
                    (K::Bchg, false, true) => tm.bchg_sta_reg,
                    (K::Bchg, false, false) => tm.bchg_sta_mem,
                    (K::Bclr, true, true) => tm.bclr_dyn_reg,
                    (K::Bclr, true, false) => tm.bclr_dyn_mem,
                    (K::Bclr, false, true) => tm.bclr_sta_reg,
                    (K::Bclr, false, false) => tm.bclr_sta_mem,
                    (_, true, true) => tm.bset_dyn_reg,
                    (_, true, false) => tm.bset_dyn_mem,
                    (_, false, true) => tm.bset_sta_reg,
                    (_, false, false) => tm.bset_sta_mem,
                };
                self.p.tag = 2;
                let loc = self.loc(m, 1);
                let v = self.rd(loc, bsz)?;
                let b = 1u32 << (n & (8 * bsz as u32 - 1));
                self.flag(Z, v & b == 0);
                match k {
                    K::Btst => {}
                    K::Bchg => self.wr(loc, bsz, v ^ b)?,
                    K::Bclr => self.wr(loc, bsz, v & !b)?,
                    _ => self.wr(loc, bsz, v | b)?,
                }
                Ok(self.t)
            }
            K::Movep => {
                let disp = self.fetch()?;
                let base = self.s.areg(r0).wrapping_add(sext(disp as u32, 2));
                let long = op & 0x40 != 0;
                let n = if long { 4 } else { 2 };
                self.p.tag = 2;
                if op & 0x80 != 0 {
                    for i in 0..n {
                        let v = self.s.d[r9 as usize] >> (8 * (n - 1 - i)) & 0xFF;
                        self.p.write(base.wrapping_add(2 * i), 1, v)?;
                    }
                    Ok(if long { tm.movep_rtm_long } else { tm.movep_rtm_word })
                } else {
                    let mut v = 0;
                    for i in 0..n {
                        v = v << 8 | self.p.read(base.wrapping_add(2 * i), 1)?;
                    }
                    self.setd(r9, n as u8, v);
                    Ok(if long { tm.movep_mtr_long } else { tm.movep_mtr_word })
                }
            }
            K::Move | K::Movea => {
                let sz = match op >> 12 {
                    1 => 1,
                    2 => 4,
                    _ => 2,
                };
                let sm = self.ea_op(sz)?;
                let dm = (op >> 6 & 7) as u8;
                let dmm = self.am(dm, r9, sz)?;
                self.t = if k == K::Movea {
                    tm.movea
                } else if dm == 4 {
                    tm.move_dst_ariwpr
                } else {
                    tm.move_other
                };
                self.p.tag = 2;
                let sl = self.loc(sm, sz);
                let v = self.rd(sl, sz)?;
                self.p.tag = 3;
                let dl = self.loc(dmm, sz);
                self.wr(dl, sz, v)?;
                if k == K::Move {
                    self.logic(v, sz);
                }
                Ok(self.t)
            }
            K::MoveFromSr => {
                let m = self.ea_op(2)?;
                self.t = if isreg { tm.movefsr_reg } else { tm.movefsr_mem };
                let loc = self.loc(m, 2);
                let sr = self.s.sr;
                self.wr(loc, 2, sr as u32)?;
                Ok(self.t)
            }
            K::MoveToCcr | K::MoveToSr => {
                let m = self.ea_op(2)?;
                if k == K::MoveToSr {
                    self.need_super()?;
                }
                self.t = if k == K::MoveToSr { tm.movesr } else { tm.moveccr };
                self.p.tag = 2;
                let loc = self.loc(m, 2);
                let v = self.rd(loc, 2)? as u16;
                if k == K::MoveToSr {
                    self.s.sr = v & SR_MASK;
                } else {
                    self.s.sr = self.s.sr & !CCR | v & CCR;
                }
                Ok(self.t)
            }
            K::Negx | K::Clr | K::Neg | K::Not | K::Tst => {
                let m = self.ea_op(sz)?;
                self.t = match k {
                    K::Negx => self.regtime(l, isreg, tm.negx_reg_bw, tm.negx_reg_l, tm.negx_mem_bw, tm.negx_mem_l),
                    K::Clr => self.regtime(l, isreg, tm.clr_reg_bw, tm.clr_reg_l, tm.clr_mem_bw, tm.clr_mem_l),
                    K::Neg => self.regtime(l, isreg, tm.neg_reg_bw, tm.neg_reg_l, tm.neg_mem_bw, tm.neg_mem_l),
                    K::Not => self.regtime(l, isreg, tm.not_reg_bw, tm.not_reg_l, tm.not_mem_bw, tm.not_mem_l),
                    _ => self.regtime(l, isreg, tm.tst_reg_bw, tm.tst_reg_l, tm.tst_mem_bw, tm.tst_mem_l),
                };
                self.p.tag = 2;
                let loc = self.loc(m, sz);
                if k == K::Clr {
                    self.wr(loc, sz, 0)?;
                    self.logic(0, sz);
                    return Ok(self.t);
                }
                let v = self.rd(loc, sz)?;
                match k {
                    K::Tst => self.logic(v, sz),
                    K::Not => {
                        self.logic(!v & msk(sz), sz);
                        self.wr(loc, sz, !v)?;
                    }
                    K::Neg => {
                        let r = self.subf(v, 0, sz, false, false);
                        self.wr(loc, sz, r)?;
                    }
                    _ => {
                        let r = self.subf(v, 0, sz, true, false);
                        self.wr(loc, sz, r)?;
                    }
                }
                Ok(self.t)
            }
            K::Nbcd => {
                let m = self.ea_op(1)?;
                self.t = if isreg { tm.nbcd_reg } else { tm.nbcd_mem };
                self.p.tag = 2;
                let loc = self.loc(m, 1);
                let v = self.rd(loc, 1)?;
                let (r, ok) = self.bcd(v, 0, true);
                self.bcd_free(loc, ok);
                self.wr(loc, 1, r)?;
                Ok(self.t)
            }
            K::Abcd | K::Sbcd => {
                let (sl, dl) = self.two(1);
                self.p.tag = 2;
                let s = self.rd(sl, 1)?;
                self.p.tag = 3;
                let d = self.rd(dl, 1)?;
                let (r, ok) = self.bcd(s, d, k == K::Sbcd);
                self.bcd_free(dl, ok);
                self.wr(dl, 1, r)?;
                Ok(match (k, mode) {
                    (K::Abcd, 0) => tm.abcd_reg,
                    (K::Abcd, _) => tm.abcd_mem,
                    (_, 0) => tm.sbcd_reg,
                    _ => tm.sbcd_mem,
                })
            }
            K::Addx | K::Subx => {
                let (sl, dl) = self.two(sz);
                self.p.tag = 2;
                let s = self.rd(sl, sz)?;
                self.p.tag = 3;
                let d = self.rd(dl, sz)?;
                let r = if k == K::Addx { self.addf(s, d, sz, true) } else { self.subf(s, d, sz, true, false) };
                self.wr(dl, sz, r)?;
                Ok(if k == K::Addx {
                    self.regtime(l, mode == 0, tm.addx_reg_bw, tm.addx_reg_l, tm.addx_mem_bw, tm.addx_mem_l)
                } else {
                    self.regtime(l, mode == 0, tm.subx_reg_bw, tm.subx_reg_l, tm.subx_mem_bw, tm.subx_mem_l)
                })
            }
            K::Cmpm => {
                let a = self.s.areg(r0);
                self.seta(r0, a.wrapping_add(self.step_of(r0, sz)));
                self.p.tag = 2;
                let s = self.p.read(a, sz)?;
                let a = self.s.areg(r9);
                self.seta(r9, a.wrapping_add(self.step_of(r9, sz)));
                self.p.tag = 3;
                let d = self.p.read(a, sz)?;
                self.subf(s, d, sz, false, true);
                Ok(if l { tm.cmpm_l } else { tm.cmpm_bw })
            }
            K::Swap => {
                let v = self.s.d[r0 as usize].rotate_left(16);
                self.s.d[r0 as usize] = v;
                self.logic(v, 4);
                Ok(tm.swap)
            }
            K::Ext => {
                let v = self.s.d[r0 as usize];
                if op & 0x40 == 0 {
                    let v = sext(v, 1);
                    self.setd(r0, 2, v);
                    self.logic(v & 0xFFFF, 2);
                } else {
                    let v = sext(v, 2);
                    self.s.d[r0 as usize] = v;
                    self.logic(v, 4);
                }
                Ok(tm.ext)
            }
            K::Pea | K::Lea | K::Jmp | K::Jsr => {
                let m = self.ea_op(2)?;
                let a = self.ctrl(m);
                let i = match mode {
                    2 => 0,
                    5 => 1,
                    6 => 2,
                    _ => 3 + r0 as usize,
                };
                self.p.tag = 2;
                match k {
                    K::Pea => {
                        self.push(4, a)?;
                        Ok([tm.pea_ari, tm.pea_ariwd, tm.pea_ariwi8, tm.pea_absshort, tm.pea_abslong, tm.pea_pciwd, tm.pea_pciwi8][i])
                    }
                    K::Lea => {
                        self.seta(r9, a);
                        Ok([tm.lea_ari, tm.lea_ariwd, tm.lea_ariwi8, tm.lea_absshort, tm.lea_abslong, tm.lea_pciwd, tm.lea_pciwi8][i])
                    }
                    K::Jmp => {
                        self.s.pc = a;
                        Ok([tm.jmp_ari, tm.jmp_ariwd, tm.jmp_ariwi8, tm.jmp_absshort, tm.jmp_abslong, tm.jmp_pciwd, tm.jmp_pciwi8][i])
                    }
                    _ => {
                        let ret = self.s.pc;
                        self.push(4, ret)?;
                        self.s.pc = a;
                        Ok([tm.jsr_ari, tm.jsr_ariwd, tm.jsr_ariwi8, tm.jsr_absshort, tm.jsr_abslong, tm.jsr_pciwd, tm.jsr_pciwi8][i])
                    }
                }
            }
            K::Movem => {
                let list = self.fetch()?;
                let sz: u8 = if op & 0x40 != 0 { 4 } else { 2 };
                let m = self.ea_op(sz)?;
                let load = op & 0x400 != 0;
                let i = match mode {
                    2 => 0,
                    3 => 1,
                    4 => 2,
                    5 => 3,
                    6 => 4,
                    _ => 5 + r0 as usize,
                };
                let mut t = [tm.movem_ari, tm.movem_ariwpo, tm.movem_ariwpr, tm.movem_ariwd, tm.movem_ariwi8, tm.movem_absshort, tm.movem_abslong, tm.movem_pciwd, tm.movem_pciwi8][i];
                t += list.count_ones() as usize * if sz == 4 { tm.movem_long } else { tm.movem_word };
                if load {
                    t += tm.movem_mtr;
                }
                let mut a = match mode {
                    3 | 4 => self.s.areg(r0),
                    _ => self.ctrl(m),
                };
                if list == 0 && a & 1 != 0 {
                    // No transfer is made: whether the odd address is noticed is not specified.
                    self.lenient_mem = true;
                }
                self.p.tag = 2;
                if mode == 4 {
                    let vals: Vec<u32> = (0..16u8).rev().map(|r| if r >= 8 { self.s.areg(r - 8) } else { self.s.d[r as usize] }).collect();
                    let id = self.rid(r0);
                    for (b, v) in vals.iter().enumerate() {
                        if list >> b & 1 != 0 {
                            a = a.wrapping_sub(sz as u32);
                            self.p.write(a, sz, *v & msk(sz))?;
                            self.hist.push((id, a));
                        }
                    }
                    self.seta(r0, a);
                } else {
                    for r in 0..16u8 {
                        if list >> r & 1 == 0 {
                            continue;
                        }
                        if load {
                            let v = sext(self.p.read(a, sz)?, sz);
                            if r < 8 {
                                self.s.d[r as usize] = v;
                            } else {
                                self.seta(r - 8, v);
                            }
                        } else {
                            let v = if r < 8 { self.s.d[r as usize] } else { self.s.areg(r - 8) };
                            self.p.write(a, sz, v & msk(sz))?;
                        }
                        a = a.wrapping_add(sz as u32);
                        if mode == 3 {
                            let id = self.rid(r0);
                            self.hist.push((id, a));
                        }
                    }
                    if mode == 3 {
                        self.seta(r0, a);
                    }
                }
                Ok(t)
            }
            K::Tas => {
                let m = self.ea_op(1)?;
                self.t = if isreg { tm.tas_reg } else { tm.tas_mem };
                self.p.tag = 2;
                let loc = self.loc(m, 1);
                let v = self.rd(loc, 1)?;
                self.logic(v, 1);
                self.wr(loc, 1, v | 0x80)?;
                Ok(self.t)
            }
            K::Trap => Err(32 + (op & 15) as u8),
            K::Link => {
                let disp = self.fetch()?;
                // The pushed value of A7 is the decremented one.
                let v = if r0 == 7 { self.s.sp().wrapping_sub(4) } else { self.s.areg(r0) };
                self.p.tag = 2;
                self.push(4, v)?;
                let sp = self.s.sp();
                self.seta(r0, sp);
                let n = self.s.sp().wrapping_add(sext(disp as u32, 2));
                self.seta(7, n);
                Ok(tm.link)
            }
            K::Unlk => {
                let a = self.s.areg(r0);
                self.seta(7, a);
                self.p.tag = 2;
                let v = self.pop(4)?;
                self.seta(r0, v);
                Ok(tm.unlk)
            }
            K::MoveUsp => {
                self.need_super()?;
                if op & 8 != 0 {
                    let v = self.s.usp;
                    self.seta(r0, v);
                } else {
                    self.s.usp = self.s.areg(r0);
                }
                Ok(tm.moveusp)
            }
            K::Reset => {
                self.need_super()?;
                self.p.resets += 1;
                Ok(tm.reset)
            }
            K::Nop => Ok(tm.nop),
            K::Stop => {
                let i = self.fetch()?;
                self.need_super()?;
                self.s.sr = i & SR_MASK;
                self.s.stop = !self.s.pend.list().iter().any(|v| wakes(*v, self.s.sr) == Some(true));
                Ok(tm.stop)
            }
            K::Rte => {
                self.need_super()?;
                self.p.tag = 2;
                let sr = self.pop(2)? as u16;
                let pc = self.pop(4)?;
                self.pch.push(pc);
                let mut t = tm.rte;
                if self.scc {
                    let f = self.pop(2)?;
                    if f & 0xF000 == 0xF000 {
                        let sp = self.s.sp().wrapping_add(26);
                        self.seta(7, sp);
                        t += 101;
                    } else if f & 0xF000 != 0 {
                        self.s.pc = pc;
                        return Err(14);
                    }
                }
                self.s.pc = pc;
                self.s.sr = sr & SR_MASK;
                Ok(t)
            }
            K::Rtr => {
                self.p.tag = 2;
                let c = self.pop(2)? as u16;
                self.s.sr = self.s.sr & !CCR | c & CCR;
                self.s.pc = self.pop(4)?;
                Ok(tm.rtr)
            }
            K::Rts => {
                self.p.tag = 2;
                self.s.pc = self.pop(4)?;
                Ok(tm.rts)
            }
            K::Trapv => {
                if self.is(V) {
                    Err(7)
                } else {
                    Ok(tm.trapv_no_trap)
                }
            }
            K::Chk => {
                let m = self.ea_op(2)?;
                self.p.tag = 2;
                let loc = self.loc(m, 2);
                let ub = self.rd(loc, 2)? as u16 as i16;
                let v = self.s.d[r9 as usize] as u16 as i16;
                self.und |= Z | V | C;
                if v < 0 {
                    self.flag(N, true);
                    Err(6)
                } else if v > ub {
                    self.flag(N, false);
                    Err(6)
                } else {
                    self.und |= N;
                    Ok(tm.chk_no_trap + self.t)
                }
            }
            K::Addq | K::Subq => {
                let i = if r9 == 0 { 8 } else { r9 as u32 };
                let add = k == K::Addq;
                if mode == 1 {
                    let a = self.s.areg(r0);
                    self.seta(r0, if add { a.wrapping_add(i) } else { a.wrapping_sub(i) });
                    return Ok(match (add, l) {
                        (true, true) => tm.addq_reg_l,
                        (true, false) => tm.addq_reg_bw,
                        (false, true) => tm.subq_reg_l,
                        (false, false) => tm.subq_areg_bw,
                    });
                }
                let m = self.ea_op(sz)?;
                self.t = if add {
                    self.regtime(l, isreg, tm.addq_reg_bw, tm.addq_reg_l, tm.addq_mem_bw, tm.addq_mem_l)
                } else {
                    self.regtime(l, isreg, tm.subq_dreg_bw, tm.subq_reg_l, tm.subq_mem_bw, tm.subq_mem_l)
                };
                self.p.tag = 2;
                let loc = self.loc(m, sz);
                let d = self.rd(loc, sz)?;
                let r = if add { self.addf(i, d, sz, false) } else { self.subf(i, d, sz, false, false) };
                self.wr(loc, sz, r)?;
                Ok(self.t)
            }
            K::Scc => {
                let m = self.ea_op(1)?;
                let c = cond(self.s.sr, op >> 8 & 15);
                self.t = match (isreg, c) {
                    (true, false) => tm.scc_reg_false,
                    (true, true) => tm.scc_reg_true,
                    (false, false) => tm.scc_mem_false,
                    (false, true) => tm.scc_mem_true,
                };
                self.p.tag = 2;
                let loc = self.loc(m, 1);
                self.wr(loc, 1, if c { 0xFF } else { 0 })?;
                Ok(self.t)
            }
            K::Dbcc => {
                let base = self.s.pc;
                let disp = self.fetch()?;
                if cond(self.s.sr, op >> 8 & 15) {
                    return Ok(tm.dbcc_true);
                }
                let c = (self.s.d[r0 as usize] as u16).wrapping_sub(1);
                self.setd(r0, 2, c as u32);
                if c == 0xFFFF {
                    return Ok(tm.dbcc_false_no_branch);
                }
                self.s.pc = base.wrapping_add(sext(disp as u32, 2));
                Ok(tm.dbcc_false_branch)
            }
            K::Bra | K::Bsr | K::Bcc => {
                let base = self.s.pc;
                let word = op & 0xFF == 0;
                let disp = if word { sext(self.fetch()? as u32, 2) } else { sext(op as u32, 1) };
                let dest = base.wrapping_add(disp);
                match k {
                    K::Bra => {
                        self.s.pc = dest;
                        Ok(if word { tm.bra_word } else { tm.bra_byte })
                    }
                    K::Bsr => {
                        let ret = self.s.pc;
                        self.p.tag = 2;
                        self.push(4, ret)?;
                        self.s.pc = dest;
                        Ok(if word { tm.bsr_word } else { tm.bsr_byte })
                    }
                    _ => {
                        if cond(self.s.sr, op >> 8 & 15) {
                            self.s.pc = dest;
                            Ok(tm.bcc_branch)
                        } else {
                            Ok(if word { tm.bcc_no_branch_word } else { tm.bcc_no_branch_byte })
                        }
                    }
                }
            }
            K::Moveq => {
                let v = sext(op as u32, 1);
                self.s.d[r9 as usize] = v;
                self.logic(v, 4);
                Ok(tm.moveq)
            }
            K::Or | K::And | K::Add | K::Sub => {
                let m = self.ea_op(sz)?;
                let ri = mode < 2 || mode == 7 && r0 == 4;
                let (rbw, rl, rlri, mbw, ml) = match k {
                    K::Or => (tm.or_reg_bw, tm.or_reg_l, tm.or_reg_l_rdimm, tm.or_mem_bw, tm.or_mem_l),
                    K::And => (tm.and_reg_bw, tm.and_reg_l, tm.and_reg_l_rdimm, tm.and_mem_bw, tm.and_mem_l),
                    K::Add => (tm.add_reg_bw, tm.add_reg_l, tm.add_reg_l_rdimm, tm.add_mem_bw, tm.add_mem_l),
                    _ => (tm.sub_reg_bw, tm.sub_reg_l, tm.sub_reg_l_rdimm, tm.sub_mem_bw, tm.sub_mem_l),
                };
                self.t = match (dir, l) {
                    (true, false) => mbw,
                    (true, true) => ml,
                    (false, false) => rbw,
                    (false, true) => {
                        if ri {
                            rlri
                        } else {
                            rl
                        }
                    }
                };
                self.p.tag = 2;
                let loc = self.loc(m, sz);
                let e = self.rd(loc, sz)?;
                let d = self.s.d[r9 as usize] & msk(sz);
                let (src, dst) = if dir { (d, e) } else { (e, d) };
                let r = match k {
                    K::Or => src | dst,
                    K::And => src & dst,
                    K::Add => self.addf(src, dst, sz, false),
                    _ => self.subf(src, dst, sz, false, false),
                };
                if matches!(k, K::Or | K::And) {
                    self.logic(r, sz);
                }
                if dir {
                    self.wr(loc, sz, r)?;
                } else {
                    self.setd(r9, sz, r);
                }
                Ok(self.t)
            }
            K::Eor => {
                let m = self.ea_op(sz)?;
                self.t = self.regtime(l, isreg, tm.eor_reg_bw, tm.eor_reg_l, tm.eor_mem_bw, tm.eor_mem_l);
                self.p.tag = 2;
                let loc = self.loc(m, sz);
                let r = (self.rd(loc, sz)? ^ self.s.d[r9 as usize]) & msk(sz);
                self.logic(r, sz);
                self.wr(loc, sz, r)?;
                Ok(self.t)
            }
            K::Cmp => {
                let m = self.ea_op(sz)?;
                self.t = if l { tm.cmp_l } else { tm.cmp_bw };
                self.p.tag = 2;
                let loc = self.loc(m, sz);
                let s = self.rd(loc, sz)?;
                let d = self.s.d[r9 as usize] & msk(sz);
                self.subf(s, d, sz, false, true);
                Ok(self.t)
            }
            K::Adda | K::Suba | K::Cmpa => {
                let sz: u8 = if dir { 4 } else { 2 };
                let m = self.ea_op(sz)?;
                let ri = mode < 2 || mode == 7 && r0 == 4;
                self.t = match (k, dir, ri) {
                    (K::Cmpa, _, _) => tm.cmpa,
                    (K::Adda, false, _) => tm.adda_word,
                    (K::Adda, true, true) => tm.adda_long_rdimm,
                    (K::Adda, true, false) => tm.adda_long,
                    (_, false, _) => tm.suba_word,
                    (_, true, true) => tm.suba_long_rdimm,
                    (_, true, false) => tm.suba_long,
                };
                self.p.tag = 2;
                let loc = self.loc(m, sz);
                let s = sext(self.rd(loc, sz)?, sz);
                let d = self.s.areg(r9);
                match k {
                    K::Adda => self.seta(r9, d.wrapping_add(s)),
                    K::Suba => self.seta(r9, d.wrapping_sub(s)),
                    _ => {
                        self.subf(s, d, 4, false, true);
                    }
                }
                Ok(self.t)
            }
            K::Mulu | K::Muls => {
                let m = self.ea_op(2)?;
                self.t = if k == K::Mulu { tm.mulu } else { tm.muls };
                self.p.tag = 2;
                let loc = self.loc(m, 2);
                let s = self.rd(loc, 2)?;
                let d = self.s.d[r9 as usize] & 0xFFFF;
                let r = if k == K::Mulu { s.wrapping_mul(d) } else { (s as u16 as i16 as i32).wrapping_mul(d as u16 as i16 as i32) as u32 };
                self.s.d[r9 as usize] = r;
                self.logic(r, 4);
                Ok(self.t)
            }
            K::Divu | K::Divs => {
                let m = self.ea_op(2)?;
                self.t = if k == K::Divu { tm.divu } else { tm.divs };
                self.p.tag = 2;
                let loc = self.loc(m, 2);
                let s = self.rd(loc, 2)?;
                let d = self.s.d[r9 as usize];
                self.flag(C, false);
                if s == 0 {
                    self.und |= N | Z | V;
                    return Err(5);
                }
                let (q, r, fits) = if k == K::Divu {
                    let (q, r) = (d / s, d % s);
                    (q, r, q <= 0xFFFF)
                } else {
                    let (n, dv) = (d as i32 as i64, s as u16 as i16 as i64);
                    let (q, r) = (n / dv, n % dv);
                    (q as u32, r as u32, (-32768..=32767).contains(&q))
                };
                if fits {
                    self.s.d[r9 as usize] = r << 16 | q & 0xFFFF;
                    self.logic(q & 0xFFFF, 2);
                } else {
                    self.flag(V, true);
                    self.und |= N | Z;
                }
                Ok(self.t)
            }
            K::Exg => {
                let (x, y) = (r9, r0);
                match op >> 3 & 0x1F {
                    0x08 => self.s.d.swap(x as usize, y as usize),
                    0x09 => {
                        let (vx, vy) = (self.s.areg(x), self.s.areg(y));
                        self.seta(x, vy);
                        self.seta(y, vx);
                    }
                    _ => {
                        let (vx, vy) = (self.s.d[x as usize], self.s.areg(y));
                        self.s.d[x as usize] = vy;
                        self.seta(y, vx);
                    }
                }
                Ok(tm.exg)
            }
            K::Asm | K::Lsm | K::Roxm | K::Rom => {
                let m = self.ea_op(2)?;
                self.t = match k {
                    K::Asm => tm.asm,
                    K::Lsm => tm.lsm,
                    K::Roxm => tm.roxm,
                    _ => tm.rom,
                };
                self.p.tag = 2;
                let loc = self.loc(m, 2);
                let v = self.rd(loc, 2)?;
                let ty = match k {
                    K::Asm => 0,
                    K::Lsm => 1,
                    K::Roxm => 2,
                    _ => 3,
                };
                let r = self.shift(ty, dir, v, 1, 2);
                self.wr(loc, 2, r)?;
                Ok(self.t)
            }
            K::Asr | K::Lsr | K::Roxr | K::Ror => {
                let n = if op & 0x20 != 0 {
                    self.s.d[r9 as usize] & 63
                } else if r9 == 0 {
                    8
                } else {
                    r9 as u32
                };
                let ty = op >> 3 & 3;
                let (bw, lt, ct) = match k {
                    K::Asr => (tm.asr_bw, tm.asr_l, tm.asr_count),
                    K::Lsr => (tm.lsr_bw, tm.lsr_l, tm.lsr_count),
                    K::Roxr => (tm.roxr_bw, tm.roxr_l, tm.roxr_count),
                    _ => (tm.ror_bw, tm.ror_l, tm.ror_count),
                };
                let v = self.s.d[r0 as usize] & msk(sz);
                let r = self.shift(ty, dir, v, n, sz);
                self.setd(r0, sz, r);
                Ok(if l { lt } else { bw } + ct * n as usize)
            }
        }
    }

    fn bcd_free(&mut self, l: Loc, ok: bool) {
        if !ok {
            match l {
                Loc::D(r) => self.free_d = Some((r, 0xFF)),
                Loc::M(a) => self.free_m = Some(a),
                _ => {}
            }
        }
    }

    /// Operands of the register-register / predecrement-predecrement instructions.
    fn two(&mut self, sz: u8) -> (Loc, Loc) {
        let (ry, rx) = ((self.op & 7) as u8, (self.op >> 9 & 7) as u8);
        if self.op & 8 == 0 {
            return (Loc::D(ry), Loc::D(rx));
        }
        let a = self.s.areg(ry).wrapping_sub(self.step_of(ry, sz));
        self.seta(ry, a);
        let b = self.s.areg(rx).wrapping_sub(self.step_of(rx, sz));
        self.seta(rx, b);
        (Loc::M(a), Loc::M(b))
    }

    fn shift(&mut self, ty: u16, left: bool, v: u32, n: u32, sz: u8) -> u32 {
        let bits = 8 * sz as u32;
        let b = msb(sz);
        let mut v = v as u64;
        let mut carry = false;
        let mut ovf = false;
        let mut x = self.is(X);
        for _ in 0..n {
            if left {
                let out = v & b as u64 != 0;
                let inn = match ty {
                    0 | 1 => false,
                    2 => x,
                    _ => out,
                };
                v = (v << 1 | inn as u64) & msk(sz) as u64;
                if (v & b as u64 != 0) != out {
                    ovf = true;
                }
                carry = out;
            } else {
                let out = v & 1 != 0;
                let inn = match ty {
                    0 => v & b as u64 != 0,
                    1 => false,
                    2 => x,
                    _ => out,
                };
                v = v >> 1 | (inn as u64) << (bits - 1);
                carry = out;
            }
            if ty != 3 {
                x = carry;
            }
        }
        let v = v as u32;
        self.logic(v, sz);
        if ty == 0 && left {
            self.flag(V, ovf);
        }
        if n == 0 {
            self.flag(C, ty == 2 && x);
        } else {
            self.flag(C, carry);
            if ty != 3 {
                self.flag(X, x);
            }
        }
        v
    }

    /// Processes one exception: frame, mask, vector.
    fn take(&mut self, v: u8) -> E<()> {
        let sr = self.s.sr;
        self.s.sr = sr & !T | S;
        if is_irq(v) {
            self.s.sr = self.s.sr & !0x0700 | ((v & 7) as u16) << 8;
        }
        let pc = self.s.pc;
        let ir = self.s.ir as u32;
        let long = v == 2 || v == 3;
        if self.scc {
            if long {
                self.push(2, 0)?;
                self.push(2, ir)?;
                self.push(2, ir)?;
                for _ in 0..3 {
                    self.push(4, 0)?;
                }
                for _ in 0..4 {
                    self.push(2, 0)?;
                }
                self.push(2, 0xF000 | v as u32 * 4)?;
            } else {
                self.push(2, v as u32 * 4)?;
            }
            self.push(4, pc)?;
            self.push(2, sr as u32)?;
        } else {
            self.push(4, pc)?;
            self.push(2, sr as u32)?;
            if long {
                self.push(2, ir)?;
                self.push(4, 0)?;
                self.push(2, 0)?;
            }
        }
        self.s.pc = self.p.read(v as u32 * 4, 4)?;
        Ok(())
    }
}

#[derive(Clone)]
pub struct Out {
    pub st: St,
    /// Cycles expected; None when no published figure applies.
    pub cycles: Option<usize>,
    /// Lower bound always valid.
    pub cyc_min: usize,
    pub exc_cycles_known: bool,
    pub vec: Option<u8>,
    pub log: Vec<Acc>,
    pub w: Vec<(u32, u8)>,
    pub devr: Vec<(u32, u8)>,
    pub odd: bool,
    pub refused: bool,
    pub resets: u32,
    /// Exceptions taken at the start of this step, in stacking order.
    pub taken: Vec<u8>,
    pub reset: bool,
    /// A vector whose stacking failed, and the replacement requested for it.
    pub failed: Vec<(u8, u8)>,
    /// Double fault or unreadable reset vector: the documented end of the program.
    pub dead: bool,
    /// Start of the instruction, and its opcode if it was fetched.
    pub ipc: u32,
    pub end_pc: u32,
    pub op: Option<u16>,
    pub k: K,
    pub instr: bool,
    pub sr0: u16,
    pub mid: St,
    pub und: u16,
    pub free_d: Option<(u8, u32)>,
    pub free_m: Option<u32>,
    pub hist: Vec<(u8, u32)>,
    pub pch: Vec<u32>,
    pub lenient: bool,
    /// Number of log entries made by exception processing.
    pub exc_log: usize,
    pub eatime: usize,
}

/// Sorts eligible exceptions into stacking order; `hint` is the order in which the core was seen
/// to fetch vectors and is followed wherever the documentation leaves the order open.
pub fn stack_order(elig: &[u8], hint: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = elig.to_vec();
    // Default order.
    let lv = |v: u8| if is_irq(v) { 1 + (v & 7) } else { 0 };
    v.sort_by(|a, b| class(*b).cmp(&class(*a)).then(lv(*a).cmp(&lv(*b))).then(a.cmp(b)));
    if hint.is_empty() {
        return v;
    }
    let mut h: Vec<u8> = Vec::new();
    for x in hint {
        if elig.contains(x) && !h.contains(x) {
            h.push(*x);
        }
    }
    // Accept the hint if it contradicts no documented pair.
    for i in 0..h.len() {
        for j in i + 1..h.len() {
            if before(h[j], h[i]) {
                return v;
            }
        }
    }
    // Insert the vectors not seen (their stacking failed before the vector fetch) where documented order allows.
    for x in v {
        if !h.contains(&x) {
            let mut at = h.len();
            for (i, y) in h.iter().enumerate() {
                if before(x, *y) {
                    at = i;
                    break;
                }
            }
            h.insert(at, x);
        }
    }
    h
}

pub fn eligible(st: &St) -> Vec<u8> {
    st.pend.list().into_iter().filter(|v| admitted(*v, st.sr)).collect()
}

/// Where a failed stacking leaves the stack pointer, which is left open: at the refused push, before it, or where it was.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Left {
    At,
    Before,
    Whole,
}

pub fn step(st: &St, mem: &Mem, torn: bool, cpu: Cpu, fill: Option<u8>, hint: &[u8], left: Left) -> Out {
    let mut port = Port::new(mem, torn, None);
    let scc = cpu.scc;
    let tim: &'static Tim = if cpu.own { &crate::own::OWN } else if scc { &timing::SCC68070 } else { &timing::MC68000 };
    let mut c = Ctx { s: st.clone(), p: &mut port, scc, tim, hist: Vec::new(), pch: Vec::new(), und: 0, free_d: None, free_m: None, op: 0, t: 0, lenient_mem: false, late: false };
    let mut o = Out {
        st: st.clone(),
        cycles: Some(0),
        cyc_min: 0,
        exc_cycles_known: true,
        vec: None,
        log: Vec::new(),
        w: Vec::new(),
        devr: Vec::new(),
        odd: false,
        refused: false,
        resets: 0,
        taken: Vec::new(),
        reset: false,
        failed: Vec::new(),
        dead: false,
        ipc: st.pc,
        end_pc: st.pc,
        op: None,
        k: K::Nop,
        instr: false,
        sr0: st.sr,
        mid: st.clone(),
        und: 0,
        free_d: None,
        free_m: None,
        hist: Vec::new(),
        pch: Vec::new(),
        lenient: false,
        exc_log: 0,
        eatime: 0,
    };
    'run: {
        if st.stop {
            break 'run;
        }
        let mut exc_cyc = 0usize;
        let elig = eligible(&c.s);
        if !elig.is_empty() {
            if elig.contains(&0) {
                o.reset = true;
                let r = c.p.read(0, 4).and_then(|ssp| c.p.read(4, 4).map(|pc| (ssp, pc)));
                match r {
                    Ok((ssp, pc)) => {
                        c.s.ssp = ssp;
                        c.s.pc = pc;
                        c.s.sr = c.s.sr & !(T | 0x0700) | S | 0x0700;
                        c.s.stop = false;
                        c.s.pend.clear();
                        exc_cyc += tim.vector_reset;
                    }
                    Err(_) => {
                        o.dead = true;
                        break 'run;
                    }
                }
            } else {
                for v in &elig {
                    c.s.pend.del(*v);
                }
                o.taken = stack_order(&elig, hint);
                for v in o.taken.clone() {
                    let sp = c.s.ssp;
                    c.late = left == Left::Before;
                    let taken = c.take(v);
                    c.late = false;
                    if left == Left::Whole && taken.is_err() {
                        c.s.ssp = sp;
                    }
                    match taken {
                        Ok(()) => match if cpu.own { Some(crate::own::vector_time(v)) } else { timing::vector_time(scc, v) } {
                            Some(t) => exc_cyc += t,
                            None => o.exc_cycles_known = false,
                        },
                        Err(e) => {
                            if v == 2 || v == 3 {
                                o.dead = true;
                                break 'run;
                            }
                            let repl = if e == 2 && is_irq(v) { 24 } else { e };
                            o.failed.push((v, repl));
                            c.s.pend.set(repl);
                        }
                    }
                }
            }
        }
        o.exc_log = c.p.log.len();
        o.cyc_min = exc_cyc;
        o.mid = c.s.clone();
        o.sr0 = c.s.sr;
        o.ipc = c.s.pc;
        o.end_pc = c.s.pc;
        if !o.failed.is_empty() {
            o.cycles = if o.exc_cycles_known { Some(exc_cyc) } else { None };
            break 'run;
        }
        o.instr = true;
        c.hist.clear();
        c.p.fill = fill;
        c.p.odd = false;
        c.p.refused = false;
        let trace = c.s.sr & T != 0;
        if c.s.pc & 1 != 0 {
            c.p.odd = true;
            o.vec = Some(3);
            o.cycles = None;
            break 'run;
        }
        let op = match c.fetch() {
            Ok(op) => op,
            Err(e) => {
                o.end_pc = c.s.pc;
                o.vec = Some(e);
                o.cycles = None;
                break 'run;
            }
        };
        o.op = Some(op);
        c.op = op;
        c.s.ir = op;
        c.s.ir_known = true;
        o.k = kind(op);
        let before_exec = c.s.pc;
        let r = c.exec(o.k);
        o.end_pc = {
            // Address after the words fetched so far.
            let n = c.p.log[o.exc_log..].iter().filter(|a| a.tag == 1).count() as u32;
            before_exec.wrapping_add(2 * n.saturating_sub(1))
        };
        o.eatime = c.t;
        match r {
            Ok(t) => {
                o.cycles = if o.exc_cycles_known { Some(exc_cyc + t) } else { None };
                o.cyc_min = exc_cyc + t;
                if trace && !privileged(o.k) {
                    o.vec = Some(9);
                }
            }
            Err(e) => {
                o.vec = Some(e);
                o.cycles = None;
            }
        }
        o.lenient = c.lenient_mem;
    }
    o.st = c.s;
    o.und = c.und;
    o.free_d = c.free_d;
    o.free_m = c.free_m;
    o.hist = c.hist;
    o.pch = c.pch;
    o.odd = port.odd;
    o.refused = port.refused;
    o.resets = port.resets;
    o.log = port.log;
    o.w = port.w;
    o.devr = port.devr;
    o
}

/// Applies a predicted step to a memory.
pub fn commit(o: &Out, mem: &mut Mem) {
    for (a, v) in &o.w {
        mem.poke(*a, *v);
    }
    for (a, n) in &o.devr {
        if let Some(Cell::Dev(i)) = mem.cell(*a) {
            mem.dev_reads[i] = mem.dev_reads[i].wrapping_add(*n);
        }
    }
}
