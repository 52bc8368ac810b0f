//! The seeded adversary: chooses every instruction, operand, interleaving, request and fault.
use crate::bus::*;
use crate::core::Api;
use crate::model::{self, k_from, kind, K, N_K};
use crate::ops::*;
use crate::rng::Rng;
use crate::run::*;
use std::sync::OnceLock;

static TABLE: OnceLock<Vec<Vec<u16>>> = OnceLock::new();
pub fn opcodes() -> &'static Vec<Vec<u16>> {
    TABLE.get_or_init(|| {
        let mut t = vec![Vec::new(); N_K];
        for op in 0..=0xFFFFu16 {
            t[kind(op) as usize].push(op);
        }
        t
    })
}

/// Per-mille rates of what the adversary does in one turn, and what it prefers.
#[derive(Clone, Copy)]
pub struct Prof {
    pub name: &'static str,
    pub turns: u32,
    pub api: [u32; 4],
    /// Refuse one access of the next step.
    pub fault: u32,
    /// Keep a fault in place over several steps.
    pub sticky: u32,
    pub odd: u32,
    pub wild: u32,
    pub exc: u32,
    pub burst: u32,
    /// Weights of host requests: autovector, on-chip, user vector, trap or other, 2/3, trace, spurious, any number.
    pub pool: [u32; 8],
    pub user: u32,
    pub trace: u32,
    pub stop: u32,
    pub reset: u32,
    pub junk: u32,
    pub focus: &'static [K],
    pub focus_pm: u32,
    pub dma: u32,
    /// Lose or delay the vector returned by a step.
    pub delay: u32,
    pub edge: u32,
    pub loops: u32,
    pub next: u32,
    pub snap: u32,
    pub noise: u32,
    pub vecpoke: u32,
    pub acc: u32,
    pub fresh: u32,
    pub mask_low: u32,
    /// The host decodes an instruction.
    pub decode: u32,
    /// Instructions come from the assembler.
    pub asm: bool,
    /// A very long life: loops of many cycles, floods of requests.
    pub far: bool,
    /// In a hundred thousand turns: the same step again and again.
    pub storm: u32,
    pub twin: TwinMode,
}

pub const BASE: Prof = Prof {
    name: "base",
    turns: 120,
    api: [25, 60, 7, 8],
    fault: 10,
    sticky: 50,
    odd: 10,
    wild: 20,
    exc: 60,
    burst: 100,
    pool: [40, 20, 15, 10, 0, 5, 2, 2],
    user: 350,
    trace: 40,
    stop: 6,
    reset: 4,
    junk: 20,
    focus: &[],
    focus_pm: 0,
    dma: 10,
    delay: 60,
    edge: 10,
    loops: 0,
    next: 4,
    snap: 0,
    noise: 0,
    vecpoke: 2,
    acc: 0,
    fresh: 2,
    mask_low: 300,
    decode: 0,
    asm: false,
    far: false,
    storm: 12,
    twin: TwinMode::None,
};

pub struct Lay {
    code: (u32, u32),
    data: (u32, u32),
    usp: (u32, u32),
    ssp: (u32, u32),
}

pub struct Gen {
    pub r: Rng,
    pub pf: Prof,
    lay: Lay,
    map: Map,
    held: Option<u8>,
    sticky: u32,
}

const CORNER: [u32; 16] = [0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF_8000, 0xFFFF_FF80];

pub struct Rec<'a> {
    pub ops: Vec<Op>,
    pub sink: Option<&'a mut dyn FnMut(&Op)>,
}

pub struct Sim<'a> {
    pub w: &'a mut World,
    pub rec: Rec<'a>,
}

impl Sim<'_> {
    pub fn go(&mut self, op: Op) {
        if let Some(s) = self.rec.sink.as_mut() {
            s(&op);
        }
        self.rec.ops.push(op);
        self.w.apply(self.rec.ops.last().unwrap());
    }
}

impl Gen {
    pub fn new(pf: Prof, map: Map, seed: u64) -> Gen {
        let mut r = Rng::new(seed);
        let lay = match map {
            // Code and stacks low, around 1 MB, or at the top of the address space.
            Map::Std => match r.below(10) {
                0 | 1 => Lay { code: (TOP + 0x100, TOP + 0x1200), data: (0x3000, 0x3800), usp: (TOP + 0x1600, TOP + 0x1900), ssp: (TOP + 0x1A00, TOP + 0x1FD0) },
                2 => Lay { code: (RAM1 + 0x100, RAM1 + 0x1200), data: (0x3000, 0x3800), usp: (RAM1 + 0x1600, RAM1 + 0x1900), ssp: (RAM1 + 0x1A00, RAM1 + 0x1FE0) },
                3 => Lay { code: (0x1000, 0x2E00), data: (0x3000, 0x3800), usp: (TOP + 0x1600, TOP + 0x1900), ssp: (RAM1 + 0x1A00, RAM1 + 0x1FE0) },
                _ => Lay { code: (0x1000, 0x2E00), data: (0x3000, 0x3800), usp: (0x3500, 0x3800), ssp: (0x3A00, 0x3FE0) },
            },
            Map::Lin(n) if n > 0x11000 => Lay { code: (0xF000, 0x10800), data: (0x10800, 0x10C00), usp: (0x10A00, 0x10C00), ssp: (0x10D80, 0x10FE0) },
            Map::Lin(_) => Lay { code: (0x1000, 0x1800), data: (0x1800, 0x1C00), usp: (0x1A00, 0x1C00), ssp: (0x1D80, 0x1FE0) },
        };
        Gen { r, pf, lay, map, held: None, sticky: 0 }
    }

    pub fn val(&mut self) -> u32 {
        match self.r.below(10) {
            0..=2 => *self.r.pick(&CORNER),
            3 => (*self.r.pick(&CORNER)).wrapping_add(self.r.below(5)).wrapping_sub(2),
            4 => self.r.below(256),
            5 => self.r.u16() as u32,
            6 => self.r.below(10) | self.r.below(10) << 4 | self.r.u32() & 0xFFFF_FF00,
            _ => self.r.u32(),
        }
    }

    /// A displacement word: anything, with the extremes often.
    fn disp(&mut self) -> u16 {
        if self.r.pm(200) {
            *self.r.pick(&[0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0xFF00, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF])
        } else {
            self.r.u16()
        }
    }

    fn addr(&mut self, sz: u32) -> u32 {
        let r = &mut self.r;
        let mut a = if r.pm(self.pf.wild) {
            let top = match self.map {
                Map::Lin(n) => n,
                Map::Std => 0x4000,
            };
            match r.below(9) {
                0 => top.wrapping_sub(12).wrapping_add(2 * r.below(10)),
                1 => RAM1.wrapping_sub(8).wrapping_add(2 * r.below(8)),
                2 => (RAM1 + RAM1_LEN).wrapping_sub(8).wrapping_add(2 * r.below(8)),
                3 => 0u32.wrapping_sub(12).wrapping_add(2 * r.below(12)),
                4 => TOP.wrapping_sub(8).wrapping_add(2 * r.below(8)),
                5 => DEV + DEV_LEN - 8 + 2 * r.below(8),
                6 => r.u32() & !1,
                7 => ROM + 2 * r.below(0x200),
                _ => 2 * r.below(0x200),
            }
        } else {
            match (self.map, r.below(20)) {
                (Map::Std, 0..=2) => RAM1 + 0x100 + 2 * r.below(0xE00),
                (Map::Std, 3 | 4) => DEV + 0x20 + 2 * r.below(0xD0),
                (Map::Std, 5) => TOP + 0x100 + 2 * r.below(0xE00),
                _ => self.lay.data.0 + 2 * r.below((self.lay.data.1 - self.lay.data.0) / 2 - 40),
            }
        };
        if sz == 1 {
            a = a.wrapping_add(r.below(2));
        } else if r.pm(self.pf.odd) {
            a |= 1;
        }
        a
    }

    fn code(&mut self) -> u32 {
        self.lay.code.0 + 2 * self.r.below((self.lay.code.1 - self.lay.code.0) / 2)
    }

    fn sr(&mut self) -> u16 {
        let r = &mut self.r;
        let mut s = r.u16() & 0x1F;
        if !r.pm(self.pf.user) {
            s |= model::S;
        }
        if r.pm(self.pf.trace) {
            s |= model::T;
        }
        let m = if r.pm(self.pf.mask_low) { 0 } else { r.below(8) as u16 };
        // Bits the processor does not implement.
        if r.pm(150) {
            s |= r.u16() & 0x58E0;
        }
        s | m << 8
    }

    /// Emits the extension words of one operand and aims its registers.
    fn ea(&mut self, mode: u8, reg: u8, sz: u32, pc: u32, words: &mut Vec<u16>, regs: &mut Vec<(u8, u32)>, ctrl: Option<u32>, sp: u32) {
        let target = match ctrl {
            Some(t) => t,
            None => self.addr(sz),
        };
        let free = reg != 7;
        let rid = 8 + reg;
        match (mode, reg) {
            (0, _) | (1, _) => {}
            (2, _) => {
                if free {
                    regs.push((rid, target))
                }
            }
            (3, _) => {
                if free {
                    regs.push((rid, target))
                }
            }
            (4, _) => {
                if free {
                    regs.push((rid, target.wrapping_add(sz)))
                }
            }
            (5, _) => {
                if free {
                    let d = if self.r.pm(500) { self.disp() } else { self.r.below(64) as u16 };
                    words.push(d);
                    regs.push((rid, target.wrapping_sub(d as i16 as u32)));
                } else if self.r.pm(200) {
                    words.push(0u16.wrapping_sub((self.r.below(32) * 2) as u16));
                } else {
                    words.push((self.r.below(32) * 2) as u16);
                }
            }
            (6, _) | (7, 3) => {
                let ir = self.r.below(8) as u8;
                let isa = self.r.pm(500);
                let long = self.r.pm(500);
                let d8 = if self.r.pm(200) { *self.r.pick(&[0, 1, 2, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF]) } else { self.r.u8() };
                let mut x = (isa as u16) << 15 | (ir as u16) << 12 | (long as u16) << 11 | d8 as u16;
                if self.r.pm(60) {
                    x |= self.r.u16() & 0x0700;
                }
                let base_in_index = isa && ir == reg && mode == 6;
                // The stack pointer keeps its value as an index.
                let by_sp = isa && ir == 7 && (mode == 6 && free || self.r.pm(100));
                if isa && ir == 7 && !by_sp {
                    x &= 0x7FFF;
                }
                let v = self.val();
                let iv = if by_sp { sp } else { v };
                let isa = x & 0x8000 != 0;
                let eff = if long { iv } else { iv as u16 as i16 as u32 };
                let off = eff.wrapping_add(d8 as i8 as u32);
                if mode == 6 {
                    words.push(x);
                    if free && !base_in_index {
                        if !by_sp {
                            regs.push((if isa { 8 + ir } else { ir }, iv));
                        }
                        regs.push((rid, target.wrapping_sub(off)));
                    } else if free {
                        regs.push((rid, target));
                    } else {
                        // Index relative to the stack pointer.
                        let want = target.wrapping_sub(sp).wrapping_sub(d8 as i8 as u32);
                        if !by_sp {
                            regs.push((if isa { 8 + ir } else { ir }, want));
                        }
                    }
                } else {
                    let base = pc.wrapping_add(2 * words.len() as u32);
                    let want = target.wrapping_sub(base).wrapping_sub(d8 as i8 as u32);
                    // A word index reaches only so far; its high half is free.
                    let v = if want as i16 as u32 == want && !long { want & 0xFFFF | self.r.u32() & 0xFFFF_0000 } else { want };
                    words.push(if v != want || want as i16 as u32 == want { x } else { x | 0x0800 });
                    if !by_sp {
                        regs.push((if isa { 8 + ir } else { ir }, v));
                    }
                }
            }
            (7, 0) => {
                let mut t = target;
                if (0x8000..0xFFFF_8000).contains(&t) {
                    t = if ctrl.is_some() { self.code() } else { self.lay.data.0 + (t & 0x1FE) + (t & 1) };
                }
                words.push(t as u16);
            }
            (7, 1) => {
                words.push((target >> 16) as u16);
                words.push(target as u16);
            }
            (7, 2) => {
                let base = pc.wrapping_add(2 * words.len() as u32);
                let d = target.wrapping_sub(base);
                if (d as i32) >= -32768 && (d as i32) < 32768 {
                    words.push(d as u16);
                } else {
                    words.push((self.r.below(64) * 2) as u16);
                }
            }
            _ => {
                let v = self.val();
                if sz == 4 {
                    words.push((v >> 16) as u16);
                }
                words.push(v as u16);
            }
        }
    }

    fn set_regs(&mut self, s: &mut Sim, regs: &[(u8, u32)]) {
        let super_ = s.w.st.sr & model::S != 0;
        for (r, v) in regs {
            let id = if *r == 15 { if super_ { 16 } else { 15 } } else { *r };
            s.go(Op::Reg(id, *v));
        }
    }

    /// Puts one instruction at the program counter, with operands worth executing.
    fn inject(&mut self, s: &mut Sim) {
        let pc = s.w.st.pc;
        if pc & 1 != 0 {
            return;
        }
        let super_ = s.w.st.sr & model::S != 0;
        let sp = if super_ { s.w.st.ssp } else { s.w.st.usp };
        let op = if self.r.pm(self.pf.junk) {
            self.r.u16()
        } else {
            let mut k = if !self.pf.focus.is_empty() && self.r.pm(self.pf.focus_pm) { *self.r.pick(self.pf.focus) } else { k_from(self.r.below(N_K as u32) as usize) };
            if k == K::Stop && !self.r.pm(self.pf.stop * 20) && !self.pf.focus.contains(&K::Stop) {
                k = K::Nop;
            }
            if k == K::Move || self.r.pm(60) && self.pf.focus.is_empty() {
                k = K::Move;
            }
            *self.r.pick(&opcodes()[k as usize])
        };
        let k = kind(op);
        let mode = (op >> 3 & 7) as u8;
        let reg = (op & 7) as u8;
        let r9 = (op >> 9 & 7) as u8;
        let osz = match op >> 6 & 3 {
            0 => 1,
            1 => 2,
            _ => 4,
        };
        let mut w = vec![op];
        let mut regs: Vec<(u8, u32)> = Vec::new();
        if self.r.pm(500) {
            let n = self.r.below(4);
            for _ in 0..n {
                let v = self.val();
                regs.push((self.r.below(8) as u8, v));
            }
        }
        let mut mem_fill: Option<(u32, u32)> = None;
        let odd = self.pf.odd;
        let code = {
            let mut c = self.code();
            if self.r.pm(odd) {
                c |= 1;
            }
            c
        };
        match k {
            K::OriCcr | K::AndiCcr | K::EoriCcr => {
                let i = if self.r.pm(700) { self.r.u16() } else { self.r.below(32) as u16 };
                w.push(i);
            }
            K::OriSr | K::AndiSr | K::EoriSr => {
                let mut i = self.r.u16();
                if k == K::AndiSr && self.r.pm(600) {
                    i |= model::S;
                }
                if !self.r.pm(self.pf.trace * 3) {
                    if k == K::AndiSr {
                        i |= model::T
                    } else {
                        i &= !model::T
                    }
                }
                w.push(i);
            }
            K::Ori | K::Andi | K::Eori | K::Addi | K::Subi | K::Cmpi => {
                let v = self.val();
                if osz == 4 {
                    w.push((v >> 16) as u16);
                }
                w.push(v as u16);
                self.ea(mode, reg, osz, pc, &mut w, &mut regs, None, sp);
            }
            K::Btst | K::Bchg | K::Bclr | K::Bset => {
                if op & 0x100 == 0 {
                    w.push(self.r.u16());
                }
                self.ea(mode, reg, 1, pc, &mut w, &mut regs, None, sp);
            }
            K::Movep => {
                let a = self.addr(1);
                let d = self.disp();
                w.push(d);
                if reg != 7 {
                    regs.push((8 + reg, a.wrapping_sub(d as i16 as u32)));
                }
                let v = self.val();
                regs.push((r9, v));
            }
            K::Move | K::Movea => {
                let sz = match op >> 12 {
                    1 => 1,
                    2 => 4,
                    _ => 2,
                };
                if mode == 0 {
                    let v = self.val();
                    regs.push((reg, v));
                }
                self.ea(mode, reg, sz, pc, &mut w, &mut regs, None, sp);
                let dm = (op >> 6 & 7) as u8;
                self.ea(dm, r9, sz, pc, &mut w, &mut regs, None, sp);
            }
            K::Movem => {
                let mut l = match self.r.below(8) {
                    0 | 1 => 1 << self.r.below(16),
                    2 => self.r.u16() & self.r.u16(),
                    3 => *self.r.pick(&[0xFFFF, 0x7FFF, 0xFFFE, 0x7FFE, 0x00FF, 0xFF00, 0x7F00, 0x0101, 0x8080, 0xC0C0, 0x3FFC, 0xFF7F, 0xFEFF, 0]),
                    _ => self.r.u16(),
                };
                if l == 0 && self.pf.odd > 0 && self.r.pm(500) {
                    l = 1;
                }
                // Loading the stack pointer from anywhere is legal but ends most runs early.
                if op & 0x400 != 0 && !self.r.pm(150) {
                    l &= 0x7FFF;
                    if l == 0 {
                        l = 4;
                    }
                }
                w.push(l);
                let sz = if op & 0x40 != 0 { 4u32 } else { 2 };
                let a = self.addr(sz).wrapping_add(if mode == 4 { l.count_ones() * sz } else { 0 });
                self.ea(mode, reg, sz, pc, &mut w, &mut regs, Some(a), sp);
            }
            K::Link => {
                let d = if self.r.pm(800) { (0u32.wrapping_sub(2 * self.r.below(16))) as u16 } else { self.disp() & !1 };
                w.push(if self.r.pm(odd) { d | 1 } else { d });
            }
            K::Unlk => {
                if reg != 7 {
                    let v = sp.wrapping_add(2 * self.r.below(8)) & !1;
                    regs.push((8 + reg, if self.r.pm(odd) { v | 1 } else { v }));
                }
            }
            K::Stop => {
                let mut v = self.sr();
                if self.r.pm(700) {
                    v |= model::S;
                }
                if !self.r.pm(self.pf.trace) {
                    v &= !model::T;
                }
                w.push(v);
            }
            K::Dbcc => {
                let d = code.wrapping_sub(pc.wrapping_add(2));
                w.push(if self.r.pm(800) { d as u16 } else { self.disp() & !1 });
                let v = if self.r.pm(400) { self.r.u32() & 0xFFFF_0000 | self.r.below(2) } else { self.val() };
                regs.push((reg, v));
            }
            K::Bra | K::Bsr | K::Bcc => {
                // One encoding in 256 has a displacement word.
                if self.r.pm(400) {
                    w[0] &= 0xFF00;
                }
                if w[0] & 0xFF == 0 {
                    w.push(if self.r.pm(850) { code.wrapping_sub(pc.wrapping_add(2)) as u16 } else { self.disp() & !1 });
                } else if w[0] & 1 != 0 && !self.r.pm(odd) {
                    w[0] ^= 1;
                    if w[0] & 0xFF == 0 {
                        w[0] |= 4;
                    }
                }
            }
            K::Jmp | K::Jsr => self.ea(mode, reg, 2, pc, &mut w, &mut regs, Some(code), sp),
            K::Pea | K::Lea => {
                let v = if self.r.pm(500) { self.r.u32() } else { self.addr(2) };
                self.ea(mode, reg, 2, pc, &mut w, &mut regs, Some(v), sp)
            }
            K::Rte | K::Rts | K::Rtr => {
                if self.r.pm(800) {
                    let mut b: Vec<u8> = Vec::new();
                    if k != K::Rts {
                        let sr = if k == K::Rte { self.sr() } else { self.r.u16() };
                        b.extend(sr.to_be_bytes());
                    }
                    b.extend(code.to_be_bytes());
                    if k == K::Rte && s.w.scc {
                        let f: u16 = match self.r.below(10) {
                            0..=5 => self.r.u16() & 0x03FC,
                            6..=8 => 0xF000 | self.r.u16() & 0x03FC,
                            _ => self.r.u16(),
                        };
                        b.extend(f.to_be_bytes());
                    }
                    if matches!(self.map, Map::Std) || (sp as u64) < 0x2000 {
                        s.go(Op::Mem(sp, b));
                    }
                }
            }
            K::Divu | K::Divs => {
                if mode == 0 {
                    let v = self.val();
                    regs.push((reg, v));
                }
                self.ea(mode, reg, 2, pc, &mut w, &mut regs, None, sp);
                let v = match self.r.below(4) {
                    0 => self.val(),
                    1 => self.r.u32() >> 8,
                    2 => (self.r.u16() as i16 as i32).wrapping_mul(self.r.u16() as i16 as i32) as u32,
                    _ => 0x8000u32.wrapping_mul(self.r.u16() as u32).wrapping_neg(),
                };
                regs.push((r9, v));
            }
            K::Abcd | K::Sbcd | K::Addx | K::Subx | K::Cmpm => {
                let sz = if matches!(k, K::Abcd | K::Sbcd) { 1 } else { osz };
                let bcd = sz == 1;
                let m = if k == K::Cmpm { 3 } else { 4 };
                if op & 8 != 0 {
                    let mut none = Vec::new();
                    let n0 = regs.len();
                    self.ea(m, reg, sz, pc, &mut none, &mut regs, None, sp);
                    if r9 != reg {
                        self.ea(m, r9, sz, pc, &mut none, &mut regs, None, sp);
                    }
                    if bcd && self.r.pm(850) {
                        for i in n0..regs.len() {
                            let a = regs[i].1.wrapping_sub(if m == 4 { 1 } else { 0 });
                            let v = (self.r.below(10) << 4 | self.r.below(10)) as u8;
                            s.go(Op::Mem(a, vec![v]));
                        }
                    } else if self.r.pm(500) {
                        for i in n0..regs.len() {
                            let a = regs[i].1.wrapping_sub(if m == 4 { sz } else { 0 });
                            let v = self.val();
                            s.go(Op::Mem(a, v.to_be_bytes()[4 - sz as usize..].to_vec()));
                        }
                    }
                } else {
                    for x in [reg, r9] {
                        let v = if bcd && self.r.pm(850) { self.r.u32() & !0xFF | self.r.below(10) << 4 | self.r.below(10) } else { self.val() };
                        regs.push((x, v));
                    }
                }
            }
            K::Asr | K::Lsr | K::Roxr | K::Ror => {
                let v = self.val();
                regs.push((reg, v));
                if op & 0x20 != 0 && self.r.pm(500) {
                    let v = self.r.u32() & !63 | *self.r.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63]);
                    regs.push((r9, v));
                }
            }
            K::Asm | K::Lsm | K::Roxm | K::Rom => self.ea(mode, reg, 2, pc, &mut w, &mut regs, None, sp),
            K::MoveFromSr | K::MoveToCcr | K::MoveToSr | K::Chk | K::Mulu | K::Muls => {
                if k == K::MoveToSr {
                    let v = self.sr();
                    let v = if self.r.pm(600) { v | model::S } else { v };
                    match (mode, reg) {
                        (0, _) => regs.push((reg, v as u32)),
                        (7, 4) => w.push(v),
                        _ => {
                            let a = self.addr(2);
                            self.ea(mode, reg, 2, pc, &mut w, &mut regs, Some(a), sp);
                            mem_fill = Some((a, v as u32));
                        }
                    }
                } else {
                    if mode == 0 {
                        let v = self.val();
                        regs.push((reg, v));
                    }
                    self.ea(mode, reg, 2, pc, &mut w, &mut regs, None, sp);
                    if k == K::Chk || k == K::Mulu || k == K::Muls {
                        let v = self.val();
                        regs.push((r9, v));
                    }
                }
            }
            K::Adda | K::Suba | K::Cmpa => {
                if r9 != 7 {
                    let v = self.val();
                    regs.push((8 + r9, v));
                }
                if mode == 0 {
                    let v = self.val();
                    regs.push((reg, v));
                }
                self.ea(mode, reg, if op & 0x100 != 0 { 4 } else { 2 }, pc, &mut w, &mut regs, None, sp)
            }
            K::Tas | K::Scc | K::Nbcd => {
                let a = self.addr(1);
                self.ea(mode, reg, 1, pc, &mut w, &mut regs, Some(a), sp);
                if k == K::Nbcd && self.r.pm(850) {
                    let v = self.r.below(10) << 4 | self.r.below(10);
                    if mode == 0 {
                        regs.push((reg, v | self.r.u32() & !0xFF));
                    } else {
                        s.go(Op::Mem(a, vec![v as u8]));
                    }
                }
            }
            K::MoveUsp => {
                let v = self.lay.usp.0 + 2 * self.r.below(0x80);
                if reg != 7 {
                    regs.push((8 + reg, v));
                }
            }
            K::Swap | K::Ext | K::Exg | K::Trap | K::Reset | K::Nop | K::Trapv | K::Illegal | K::Moveq | K::LineA | K::LineF | K::Unknown => {
                if k == K::Ext {
                    let v = self.val();
                    regs.push((reg, v));
                }
                if k == K::Exg {
                    for (x, addr) in [(reg, op & 0x48 == 0x48 || op & 8 != 0), (r9, op & 0x48 == 0x48)] {
                        if !(addr && x == 7) {
                            let v = self.val();
                            regs.push((x + 8 * addr as u8, v));
                        }
                    }
                }
                if k == K::Exg && !self.r.pm(200) && (op & 7 == 7 || r9 == 7) && op & 0x48 != 0x40 {
                    w[0] = 0x4E71;
                }
            }
            _ => {
                self.ea(mode, reg, osz, pc, &mut w, &mut regs, None, sp);
                if mode == 0 {
                    let v = self.val();
                    regs.push((reg, v));
                }
                let v = self.val();
                regs.push((r9, v));
            }
        }
        // And in an address register used as the operand itself.
        if mode == 1 && reg != 7 && self.r.pm(400) && matches!(k, K::Move | K::Movea | K::Add | K::Sub | K::Cmp | K::Adda | K::Suba | K::Cmpa | K::Addq | K::Subq) {
            let v = self.val();
            regs.push((8 + reg, v));
        }
        // Corner values in the memory operands.
        if mem_fill.is_none() && self.r.pm(450) {
            if let Some((_, a)) = regs.iter().rev().find(|x| x.0 >= 8 && x.0 < 15) {
                let v = self.val();
                mem_fill = Some((if mode == 4 { a.wrapping_sub(osz) } else { *a }, v));
            }
        }
        let mut bytes = Vec::with_capacity(w.len() * 2 + 2);
        for x in &w {
            bytes.extend(x.to_be_bytes());
        }
        if self.r.pm(200) {
            bytes.extend([0x4E, 0x71]);
        }
        self.set_regs(s, &regs);
        if let Some((a, v)) = mem_fill {
            if !(a >= 0x400 && a < self.lay.data.0) {
                let b = if k == K::MoveToSr { (v as u16).to_be_bytes().to_vec() } else { v.to_be_bytes().to_vec() };
                s.go(Op::Mem(a, b));
            }
        }
        if self.pf.asm {
            let near = if self.r.pm(300) { 1 + self.r.below(!0) } else { 0 };
            s.go(Op::Asm(pc, bytes, near));
        } else {
            s.go(Op::Mem(pc, bytes));
        }
    }

    fn vector(&mut self) -> u8 {
        let p = self.pf.pool;
        let total: u32 = p.iter().sum();
        let mut x = self.r.below(total.max(1));
        for (i, w) in p.iter().enumerate() {
            if x < *w {
                return match i {
                    0 => 25 + self.r.below(7) as u8,
                    1 => 57 + self.r.below(7) as u8,
                    2 => 64 + self.r.below(192) as u8,
                    3 => match self.r.below(3) {
                        0 => 32 + self.r.below(16) as u8,
                        1 => *self.r.pick(&[4, 5, 6, 7, 8, 10, 11]),
                        _ => *self.r.pick(&[14, 15]),
                    },
                    4 => 2 + self.r.below(2) as u8,
                    5 => 9,
                    6 => 24,
                    _ => {
                        let v = self.r.u8();
                        if v == 0 {
                            1
                        } else {
                            v
                        }
                    }
                };
            }
            x -= w;
        }
        25
    }

    fn api(&mut self) -> Api {
        let a = self.pf.api;
        let mut x = self.r.below(a.iter().sum());
        for (i, w) in a.iter().enumerate() {
            if x < *w {
                return [Api::I, Api::E, Api::D, Api::X][i];
            }
            x -= w;
        }
        Api::E
    }

    pub fn start(&mut self, s: &mut Sim) {
        for i in 0..8 {
            let v = self.val();
            s.go(Op::Reg(i, v));
        }
        for i in 8..15 {
            let v = self.addr(2);
            s.go(Op::Reg(i, v));
        }
        s.go(Op::Reg(15, self.lay.usp.1 - 4));
        s.go(Op::Reg(16, self.lay.ssp.1));
        let sr = self.sr();
        s.go(Op::Reg(18, sr as u32));
        let pc = self.code();
        s.go(Op::Reg(17, pc));
        if self.pf.next > 0 || self.pf.twin == TwinMode::Ffi {
            let n = *self.r.pick(&[0u32, 1, 2, 5, 8, 16, 32, 64, 200]);
            s.go(Op::Len(n));
        }
    }

    fn tidy(&mut self, s: &mut Sim) {
        if s.w.ended {
            let reset = self.r.pm(300);
            s.go(Op::New(reset));
            s.go(Op::Unfault);
            self.sticky = 0;
            self.held = None;
            self.start(s);
            if reset {
                let v = self.code();
                s.go(Op::Mem(4, v.to_be_bytes().to_vec()));
                let v = self.lay.ssp.1;
                s.go(Op::Mem(0, v.to_be_bytes().to_vec()));
            }
        }
        let (ssp, usp, pc) = (s.w.st.ssp, s.w.st.usp, s.w.st.pc);
        if !(self.lay.ssp.0..=self.lay.ssp.1 + 0x20).contains(&ssp) || ssp & 1 != 0 {
            if !self.r.pm(50 + self.pf.edge * 4) {
                let v = self.lay.ssp.1 - 2 * self.r.below(8);
                s.go(Op::Reg(16, v));
            }
        } else if self.r.pm(self.pf.edge) {
            let v = self.edge_sp();
            s.go(Op::Reg(16, v));
        }
        if usp & 1 != 0 && !self.r.pm(100) || !s.w.mem.writable(usp.wrapping_sub(4)) && !self.r.pm(100) {
            let v = self.lay.usp.1 - 4 * self.r.below(8);
            s.go(Op::Reg(15, v));
        }
        let in_code = (self.lay.code.0..self.lay.code.1).contains(&pc);
        let in_handler = (0x400..0x1000).contains(&pc);
        if !in_code && !in_handler && !self.r.pm(40 + self.pf.wild + self.pf.edge) || pc & 1 != 0 && !self.r.pm(300) {
            let v = self.code();
            s.go(Op::Reg(17, v));
        } else if in_handler && self.r.pm(120) {
            let v = self.code();
            s.go(Op::Reg(17, v));
        }
    }

    fn edge_sp(&mut self) -> u32 {
        let r = &mut self.r;
        let top = match self.map {
            Map::Lin(n) => n & !1,
            Map::Std => 0x4000,
        };
        let v = match r.below(7) {
            0 => RAM1 + 2 * r.below(24),
            1 => TOP + 2 * r.below(24),
            2 => 2 * r.below(24),
            3 => top + 2 * r.below(24),
            4 => DEV + 2 * r.below(40),
            5 => ROM + 0x100,
            _ => 0x3F00 + r.below(0x40),
        };
        if r.pm(self.pf.odd * 2) {
            v | 1
        } else {
            v
        }
    }

    /// One turn: prepare, disturb, step, react.
    pub fn turn(&mut self, s: &mut Sim) {
        let pf = self.pf;
        self.tidy(s);
        if self.r.pm(pf.fresh) {
            let reset = self.r.pm(500);
            s.go(Op::New(reset));
            self.held = None;
            if self.r.pm(700) {
                self.start(s);
            }
        }
        if s.w.mem.faults.len() > 0 {
            if self.sticky == 0 {
                s.go(Op::Unfault);
            } else {
                self.sticky -= 1;
            }
        }
        if self.r.pm(30) {
            let sr = self.sr();
            s.go(Op::Reg(18, sr as u32));
        } else if pf.trace > 100 && self.r.pm(pf.trace / 3) {
            let sr = s.w.st.sr | model::T;
            s.go(Op::Reg(18, sr as u32));
        }
        if self.r.pm(20) {
            let (i, v) = (self.r.below(8) as u8, self.val());
            s.go(Op::Reg(i, v));
        }
        if self.r.pm(6) {
            // The stack pointer the current mode does not use can hold anything.
            let i = if s.w.st.sr & model::S != 0 { 15 } else { 16 };
            let v = self.val();
            s.go(Op::Reg(i, v));
        }
        if self.r.pm(pf.dma) {
            let a = self.addr(1);
            let b: Vec<u8> = (0..1 + self.r.below(8)).map(|_| self.r.u8()).collect();
            s.go(Op::Mem(a, b));
        }
        if self.r.pm(pf.vecpoke) {
            let v = self.vector() as u32;
            let mut a = match self.r.below(3) {
                0 => self.code(),
                1 => self.addr(2),
                _ => self.r.u32(),
            };
            if !self.r.pm(pf.odd * 4) {
                a &= !1;
            }
            s.go(Op::Mem(4 * v, a.to_be_bytes().to_vec()));
        }
        if pf.acc > 0 && self.r.pm(pf.acc) {
            let n = match self.map {
                Map::Lin(n) => n,
                _ => 0x4000,
            };
            let a = match self.r.below(4) {
                0 => n.wrapping_sub(8).wrapping_add(self.r.below(16)),
                1 => self.r.u32(),
                2 => 0u32.wrapping_sub(self.r.below(8)),
                _ => self.r.below(n),
            };
            let v = self.r.u32();
            s.go(Op::Acc(a, v));
            let l = self.r.below(20);
            let a = match self.r.below(4) {
                0 => 0u32.wrapping_sub(self.r.below(6)),
                1 => 0x7FFF_FFFFu32.wrapping_add(self.r.below(4)),
                _ => self.r.below(l + 6),
            };
            s.go(Op::Tiny(l, a, v));
            if self.r.pm(30) {
                // Slices beyond 64 KB, 16 MB, 2 GB and 4 GB.
                let i = self.r.below(BIG.len() as u32) as usize;
                let n = BIG[i];
                let a = match self.r.below(6) {
                    0 => (n as u32).wrapping_sub(8).wrapping_add(self.r.below(16)),
                    1 => self.r.u32(),
                    2 => self.r.u32() % n.min(0xFFFF_FFFF) as u32,
                    3 => (self.r.below(64) << 26).wrapping_sub(4).wrapping_add(self.r.below(8)),
                    4 => (self.r.below(4) << 15).wrapping_sub(4).wrapping_add(self.r.below(8)),
                    _ => 0x100_0000u32.wrapping_sub(4).wrapping_add(self.r.below(8)),
                };
                s.go(Op::Big(i as u32, a, v));
            }
        }
        let stopped = s.w.st.stop;
        let in_handler = (0x400..0x1000).contains(&s.w.st.pc);
        if !stopped && (!in_handler || self.r.pm(60)) && (s.w.mem.readable(s.w.st.pc) || self.r.pm(300)) {
            self.inject(s);
        }
        // Host requests.
        let mut excp = pf.exc;
        if stopped {
            excp = excp.max(350);
        }
        if self.r.pm(excp) {
            let n = if self.r.pm(pf.burst) { 2 + self.r.below(4) } else { 1 };
            let n = if n > 1 && self.r.pm(if pf.far { 60 } else { 30 }) { 20 + self.r.below(230) } else { n };
            for _ in 0..n {
                // A flood takes any vector.
                let v = if n > 5 { 1 + self.r.below(255) as u8 } else { self.vector() };
                s.go(Op::Exc(v));
                if n < 3 && self.r.pm(15) {
                    // The host insists; counters of any width may wrap.
                    let m = match self.r.below(4) {
                        0 => self.r.below(600),
                        1 if pf.far => 0xFFFD + self.r.below(4),
                        _ => 253 + self.r.below(4),
                    };
                    s.go(Op::Again(v, m));
                }
            }
        }
        if self.r.pm(pf.reset) || stopped && self.r.pm(30) {
            if self.r.pm(850) && s.w.mem.faults.is_empty() {
                let v = self.code();
                s.go(Op::Mem(4, v.to_be_bytes().to_vec()));
                let v = self.lay.ssp.1;
                s.go(Op::Mem(0, v.to_be_bytes().to_vec()));
            }
            if self.r.pm(150) {
                // One of the reset vector words cannot be read: the documented end.
                let lo = 2 * self.r.below(4);
                s.go(Op::Fault(Fault { lo, len: 2, r: true, w: false }));
            }
            s.go(Op::Exc(0));
        }
        if let Some(v) = self.held {
            if self.r.pm(300) {
                self.held = None;
                s.go(Op::Exc(v));
            }
        }
        if self.r.pm(pf.snap) {
            s.go(Op::Snap);
        }
        if self.r.pm(pf.noise) {
            let v = self.r.u64();
            s.go(Op::Noise(v));
        }
        if !matches!(pf.twin, TwinMode::Slice | TwinMode::Prog) && self.r.pm(pf.next) {
            let k = self.r.below(3) as u8;
            if self.r.pm(300) {
                // From an odd program counter.
                let pc = s.w.st.pc;
                s.go(Op::Reg(17, pc | 1));
                s.go(Op::Next(k));
                s.go(Op::Reg(17, pc));
            } else {
                s.go(Op::Next(k));
            }
        }
        if self.r.pm(pf.decode) && !s.w.ended {
            self.decode(s);
        }
        // Refuse one access the next step is going to make.
        if self.r.pm(pf.fault) && !s.w.ended && !s.w.st.stop && self.pf.twin != TwinMode::Slice {
            let o = s.w.predict(None);
            if !o.log.is_empty() && !o.dead {
                let tries = if self.r.pm(150) { 1 } else { 4 };
                for _ in 0..tries {
                    let a = *self.r.pick(&o.log);
                    let b = self.r.below(a.size as u32);
                    let both = self.r.pm(300);
                    let wide = if self.r.pm(200) { 64 } else { 2 };
                    let f = Fault { lo: a.addr.wrapping_add(b), len: 1 + self.r.below(wide), r: !a.w || both, w: a.w || both };
                    s.w.mem.faults.push(f);
                    let d = s.w.predict(None).dead;
                    s.w.mem.faults.pop();
                    if !d || tries == 1 {
                        s.go(Op::Fault(f));
                        self.sticky = if self.r.pm(pf.sticky) { 1 + self.r.below(6) } else { 0 };
                        break;
                    }
                }
            }
        }
        if self.r.below(100_000) < pf.storm && !s.w.ended {
            self.storm(s);
            if s.w.ended {
                return;
            }
        }
        if self.r.pm(pf.loops) && self.r.pm(if pf.far { 15 } else { 2 }) && !s.w.ended && !s.w.st.stop {
            self.spin(s);
            self.react(s, true);
            if s.w.ended {
                return;
            }
        }
        if self.r.pm(pf.loops) && !s.w.ended {
            let far = self.pf.far && self.r.pm(20);
            let n = match self.r.below(8) {
                _ if far => 60_000 + self.r.below(400_000),
                0 => 0,
                1 => 1,
                2 => 4,
                3 => self.r.below(2000),
                4 if self.r.pm(200) => self.r.below(30_000),
                _ => self.r.below(200),
            };
            match self.r.below(3) {
                // A stopped core does not use up the cycles one by one.
                0 if s.w.st.stop && self.r.pm(150) => {
                    let n = self.budget();
                    s.go(Op::Cycle(n))
                }
                1 if s.w.st.stop && self.r.pm(150) => {
                    let n = self.budget();
                    s.go(Op::Until(n))
                }
                0 => s.go(Op::Cycle(n as u64)),
                1 => s.go(Op::Until(n as u64)),
                _ => {
                    // Only where single stepping shows that the loop ends.
                    let mut c = s.w.core.clone();
                    let mut b = s.w.bus.clone();
                    let mut fine = c.stop();
                    for _ in 0..300 {
                        match c.step(Api::E, &mut b, s.w.torn) {
                            Ok(r) => {
                                if c.stop() || r.vec.flatten().is_some() {
                                    fine = true;
                                    break;
                                }
                            }
                            Err(_) => break,
                        }
                    }
                    if fine && self.r.pm(250) {
                        let n = self.budget();
                        s.go(Op::Until(n));
                    } else if fine {
                        s.go(Op::Loop);
                    } else {
                        s.go(Op::Until(n as u64));
                    }
                }
            }
            self.react(s, true);
            if s.w.ended {
                return;
            }
        }
        let api = self.api();
        s.go(Op::Step(api));
        self.react(s, matches!(api, Api::E | Api::X));
        // Sometimes nothing happens between two steps.
        if self.r.pm(100) && !s.w.ended {
            let api = self.api();
            s.go(Op::Step(api));
            self.react(s, matches!(api, Api::E | Api::X));
        }
    }

    /// The host decodes: mostly what the core is about to execute, otherwise anything anywhere.
    /// Budgets that only a core about to stop can meet.
    fn budget(&mut self) -> u64 {
        let k = self.r.below(8) as u64;
        match self.r.below(4) {
            0 => (1 << 32) - 4 + k,
            1 => (self.r.u32() as u64) << 8,
            2 => 1 << (31 + self.r.below(32)),
            _ => u64::MAX - k,
        }
    }

    fn storm(&mut self, s: &mut Sim) {
        let v = match self.r.below(4) {
            0 => 256,
            1 => 32 + self.r.below(16),
            2 => 25 + 32 * self.r.below(2) + self.r.below(7),
            _ => 64 + self.r.below(192),
        };
        if v < 256 && self.r.pm(400) && self.pf.twin != TwinMode::Slice {
            s.go(Op::Fault(Fault { lo: 4 * v, len: 4, r: true, w: false }));
        }
        if s.w.predict(None).dead {
            return;
        }
        let n = match self.r.below(8) {
            0 => 300,
            1 => 70_000 / if self.pf.storm > 12 { 1 } else { 50 },
            _ => (if self.pf.storm > 12 { 9000 } else { 300 }) + self.r.below(1000),
        };
        let api = self.api();
        s.go(Op::Storm(v, n, api));
    }

    /// A loop that nothing ends, run for a long budget.
    fn spin(&mut self, s: &mut Sim) {
        let at = self.code() & !0xF;
        let mut words = Vec::new();
        for _ in 0..self.r.below(4) {
            // NOP, ADDQ.L #1,D0, MOVE.L D1,D2, TST.W D3
            words.push(*self.r.pick(&[0x4E71, 0x5280, 0x2401, 0x4A43]));
        }
        words.push(0x6000 | (0xFE - 2 * words.len() as u16) & 0xFF);
        s.go(Op::Mem(at, words.iter().flat_map(|w: &u16| w.to_be_bytes()).collect()));
        s.go(Op::Unfault);
        let sr = s.w.st.sr & !model::T;
        s.go(Op::Reg(18, sr as u32));
        s.go(Op::Reg(17, at));
        let n = match self.r.below(4) {
            0 => self.r.below(20_000),
            1 => 0xFFFF - 20 + self.r.below(40),
            _ => 60_000 + self.r.below(100_000),
        } as u64;
        s.go(if self.r.pm(500) { Op::Cycle(n) } else { Op::Until(n) });
    }

    fn decode(&mut self, s: &mut Sim) {
        let here = self.r.pm(600);
        let mut a = if here {
            s.w.st.pc
        } else {
            let wild = std::mem::replace(&mut self.pf.wild, 500);
            let a = match self.r.below(4) {
                0 => self.code(),
                1 => 0u32.wrapping_sub(2 * self.r.below(6)),
                _ => self.addr(2),
            };
            self.pf.wild = wild;
            a & !1
        };
        if self.r.pm(self.pf.odd) {
            a |= 1;
        }
        if !here && self.r.pm(500) {
            // An instruction of any kind, or none.
            let op = if self.r.pm(200) {
                self.r.u16()
            } else {
                let k = k_from(self.r.below(N_K as u32) as usize);
                *self.r.pick(&opcodes()[k as usize])
            };
            let mut b = op.to_be_bytes().to_vec();
            for _ in 0..self.r.below(5) {
                b.extend(self.r.u16().to_be_bytes());
            }
            s.go(Op::Mem(a, b));
        }
        let quiet = s.w.mem.faults.is_empty();
        let hit = self.r.pm(400);
        if hit {
            let n = 2 * model::words(s.w.mem.peek16(a & !1));
            let lo = a.wrapping_add(self.r.below(n + 2));
            let most = if self.r.pm(200) { 64 } else { 2 };
            let len = 1 + self.r.below(most);
            s.go(Op::Fault(Fault { lo, len, r: !self.r.pm(100), w: self.r.pm(200) }));
        }
        let n = if self.r.pm(300) { 2 + self.r.below(4) } else { 1 };
        s.go(Op::Decode(a, n));
        if hit && quiet && !self.r.pm(self.pf.sticky) {
            s.go(Op::Unfault);
            if self.r.pm(700) {
                s.go(Op::Decode(a, 1));
            }
        } else if self.r.pm(100) {
            s.go(Op::Decode(a, 1));
        }
    }

    fn react(&mut self, s: &mut Sim, ret: bool) {
        if !ret || s.w.ended {
            return;
        }
        if let Some(v) = s.w.last.as_ref().and_then(|r| r.vec).flatten() {
            if self.r.pm(self.pf.delay) {
                if self.r.pm(500) {
                    self.held = Some(v);
                }
            } else {
                s.go(Op::Exc(v));
                if self.r.pm(60) {
                    s.go(Op::Exc(v));
                }
            }
        }
    }

    // -----------------------------------------------------------------------------------------

    /// A program with state-preserving interrupt handlers, then random interrupts at random boundaries.
    pub fn program(&mut self, s: &mut Sim) {
        let saved = self.pf;
        let sup = !self.r.pm(600);
        // Handlers for every interrupt and trap that may occur.
        let mut at = 0x400u32;
        let mut vecs: Vec<u32> = (25..=31).chain(57..=63).collect();
        let mut pick: Vec<u32> = Vec::new();
        for _ in 0..10 {
            pick.push(*self.r.pick(&vecs));
        }
        pick.sort_unstable();
        pick.dedup();
        vecs = pick.clone();
        for v in vecs.iter().copied().chain(5..=7).chain([9]).chain(32..=47) {
            let mut h: Vec<u16> = vec![0x48E7, 0xFFFE];
            h.extend([0x52B8, (CNT + 4 * v) as u16]);
            for _ in 0..self.r.below(6) {
                match self.r.below(8) {
                    0 => h.push(0x7000 | self.r.u16() & 0x0EFF),
                    1 => h.push(0xD080 | self.r.u16() & 0x0E07),
                    2 => h.extend([0x003C, self.r.u16() & 0x1F]),
                    3 => h.push(0x2040 | self.r.u16() & 0x0C07),
                    4 => h.push(0xC0C0 | self.r.u16() & 0x0E07),
                    5 => h.push(0xE190 | self.r.u16() & 0x0E07),
                    6 => h.extend([0x4EB8, 0x0FE0]),
                    _ => h.push(0x4E71),
                }
            }
            if self.r.pm(350) {
                h.extend([0x027C, 0xF8FF]);
                for _ in 0..self.r.below(3) {
                    h.push(0x4E71);
                }
            }
            h.extend([0x4CDF, 0x7FFF, 0x4E73]);
            let h: Vec<u16> = h.iter().map(|x| if *x == 0x51C8 { 0x4E71 } else { *x }).collect();
            let mut b = Vec::new();
            for x in &h {
                b.extend(x.to_be_bytes());
            }
            s.go(Op::Mem(4 * v, at.to_be_bytes().to_vec()));
            at += b.len() as u32;
            s.go(Op::Mem(at - b.len() as u32, b));
        }
        // A leaf routine the handlers may call.
        s.go(Op::Mem(0x0FE0, vec![0x52, 0x80, 0x4E, 0x75]));
        s.go(Op::Mem(CNT, vec![0; 0x400]));
        // Program.
        let mut bytes: Vec<u8> = Vec::new();
        for i in 0..7u8 {
            let base = PROG_DATA_LO + 0x200 + 2 * self.r.below(0x200);
            s.go(Op::Reg(8 + i, base));
        }
        for i in 0..8u8 {
            let v = self.val();
            s.go(Op::Reg(i, v));
        }
        s.go(Op::Reg(15, 0x33F0));
        s.go(Op::Reg(16, 0x3FF0));
        let mut n = 0;
        let len = 20 + self.r.below(50);
        while n < len {
            let w = self.prog_instr(sup, bytes.len() as u32);
            for x in &w {
                bytes.extend(x.to_be_bytes());
            }
            n += 1;
        }
        // Back to the start.
        let d = (0u32.wrapping_sub(bytes.len() as u32 + 2)) as u16;
        bytes.extend(0x6000u16.to_be_bytes());
        bytes.extend(d.to_be_bytes());
        s.go(Op::Mem(PROG_LO, bytes));
        let m = self.r.below(3) as u16 * self.r.below(4) as u16;
        let mut sr = self.r.u16() & 0x1F | (m.min(7)) << 8;
        if sup {
            sr |= model::S;
        }
        if self.r.pm(200) {
            sr |= model::T;
        }
        s.go(Op::Reg(18, sr as u32));
        s.go(Op::Reg(17, PROG_LO));
        s.go(Op::Mark);
        let total = s.w.prog.as_ref().map_or(0, |p| p.steps());
        let mut i = 0;
        let rate = *self.r.pick(&[20u32, 60, 150, 400]);
        let most = if s.w.long_prog() { 30_000 } else { 900 };
        while i < most && !s.w.ended && !s.w.prog.as_ref().is_some_and(|p| p.done || p.n >= total) {
            i += 1;
            if self.r.pm(rate) {
                for _ in 0..1 + self.r.below(3) * (self.r.pm(300) as u32) {
                    let v = *self.r.pick(&vecs);
                    s.go(Op::Exc(v as u8));
                }
            }
            let api = if self.r.pm(500) { Api::E } else { Api::X };
            s.go(Op::Step(api));
            if let Some(v) = s.w.last.as_ref().and_then(|r| r.vec).flatten() {
                if matches!(v, 5..=7 | 9 | 32..=47) {
                    s.go(Op::Exc(v));
                } else {
                    break;
                }
            }
        }
        s.go(Op::Drain);
        self.pf = saved;
    }

    fn prog_instr(&mut self, sup: bool, off: u32) -> Vec<u16> {
        use K::*;
        const KS: &[K] = &[
            OriCcr, AndiCcr, EoriCcr, Ori, Andi, Subi, Addi, Eori, Cmpi, Btst, Bchg, Bclr, Bset, Movep, Move, Move, Move, Movea, MoveFromSr, MoveToCcr, Negx, Clr, Neg, Not,
            Nbcd, Swap, Pea, Ext, Movem, Tas, Tst, Link, Nop, Trapv, Lea, Chk, Addq, Subq, K::Scc, Dbcc, Bcc, Moveq, Or, Divu, Divs, Sbcd, Sub, Subx, Cmp, Cmpa, Cmpm, Eor,
            And, Mulu, Muls, Abcd, Exg, Add, Addx, Asm, Lsm, Roxm, Rom, Asr, Lsr, Roxr, Ror, Trap,
        ];
        loop {
            if sup && self.r.pm(40) {
                // The program moves the interrupt mask: with ORI and ANDI to SR.
                return match self.r.below(12) {
                    0..=2 => vec![0x007C, (self.r.below(4) << 8) as u16],
                    3 => vec![0x007C, 0x8000],
                    4 | 5 => vec![0x027C, 0x7FFF],
                    _ => vec![0x027C, 0xF8FF],
                };
            }
            if sup && self.r.pm(15) {
                return vec![(if self.r.pm(500) { 0x4E60 } else { 0x4E68 }) | self.r.below(7) as u16];
            }
            if self.r.pm(60) {
                return match self.r.below(6) {
                    // BSR to an RTS, to ADDQ #1,Dn; RTS, or to MOVE SR,-(SP); RTR; back to a BRA over it.
                    0 => vec![0x6102, 0x6002, 0x4E75],
                    1 => vec![0x6100, 0x0004, 0x6004, 0x5280 | self.r.below(8) as u16, 0x4E75],
                    2 => vec![0x6102, 0x6004, 0x40E7, 0x4E77],
                    // JSR and JMP relative to PC, with a BRA over the RTS.
                    3 => vec![0x4EBA, 0x0004, 0x6002, 0x4E75],
                    4 => vec![0x4EFA, 0x0004, 0x4E71],
                    // Constants in the code.
                    _ => vec![0x303A | (self.r.below(8) << 9) as u16, 0x0004, 0x6002, self.r.u16()],
                };
            }
            let k = *self.r.pick(KS);
            let op = *self.r.pick(&opcodes()[k as usize]);
            let mode = (op >> 3 & 7) as u8;
            let reg = (op & 7) as u8;
            let r9 = (op >> 9 & 7) as u8;
            let mut w = vec![op];
            let osz = match op >> 6 & 3 {
                0 => 1,
                1 => 2,
                _ => 4u32,
            };
            let small = |g: &mut Gen, mode: u8, reg: u8, sz: u32, w: &mut Vec<u16>| -> bool {
                match (mode, reg) {
                    (0, _) | (1, 0..=6) | (2, 0..=6) => true,
                    (3 | 4, 0..=6) => g.r.pm(400),
                    (4, 7) => g.r.pm(200),
                    (5, _) => {
                        if reg == 7 {
                            return false;
                        }
                        w.push(((g.r.below(32) * 2) as i16 - 32) as u16);
                        true
                    }
                    (7, 0) => {
                        w.push((PROG_DATA_LO + 2 * g.r.below(0x200)) as u16);
                        true
                    }
                    (7, 1) => {
                        w.push(0);
                        w.push((PROG_DATA_LO + 2 * g.r.below(0x200)) as u16);
                        true
                    }
                    (7, 4) => {
                        let v = g.val();
                        if sz == 4 {
                            w.push((v >> 16) as u16);
                        }
                        w.push(v as u16);
                        true
                    }
                    _ => false,
                }
            };
            let ok = match k {
                OriCcr | AndiCcr | EoriCcr => {
                    w.push(self.r.u16() & 0x1F);
                    true
                }
                Ori | Andi | Subi | Addi | Eori | Cmpi => {
                    let v = self.val();
                    if osz == 4 {
                        w.push((v >> 16) as u16);
                    }
                    w.push(v as u16);
                    small(self, mode, reg, osz, &mut w)
                }
                Btst | Bchg | Bclr | Bset => {
                    if op & 0x100 == 0 {
                        w.push(self.r.u16() & 31);
                    }
                    small(self, mode, reg, 1, &mut w)
                }
                Movep => {
                    w.push((self.r.below(64)) as u16);
                    reg != 7
                }
                Move | Movea => {
                    let sz = match op >> 12 {
                        1 => 1,
                        2 => 4,
                        _ => 2,
                    };
                    // Address registers are only loaded with addresses of the data area.
                    if k == Movea {
                        w = vec![0x207C | (r9 as u16 % 7) << 9, 0, (PROG_DATA_LO + 0x100 + 2 * self.r.below(0x200)) as u16];
                        true
                    } else {
                        small(self, mode, reg, sz, &mut w) && small(self, (op >> 6 & 7) as u8, r9, sz, &mut w)
                    }
                }
                Movem => {
                    if op & 0x400 != 0 {
                        w.push(self.r.u16() & 0xFF);
                    } else {
                        w.push(self.r.u16());
                    }
                    w[1].count_ones() < 6 && small(self, mode, reg, 2, &mut w)
                }
                Lea => {
                    w = vec![0x41F8 | (r9 as u16 % 7) << 9, (PROG_DATA_LO + 0x100 + 2 * self.r.below(0x200)) as u16];
                    true
                }
                Pea => self.r.pm(200) && small(self, mode, reg, 2, &mut w),
                Link => {
                    // LINK and UNLK in pairs keep the stack level.
                    let r = self.r.below(6) as u16;
                    w = vec![0x4E50 | r, (0u32.wrapping_sub(2 * self.r.below(8))) as u16, 0x2F00 | self.r.below(8) as u16, 0x4E58 | r];
                    // The frame pointer is an address in the stack afterwards restored by UNLK.
                    true
                }
                Dbcc => {
                    if off > 0x600 || reg == 7 {
                        false
                    } else {
                        w[0] = op & 0xFFF8 | reg as u16;
                        w.push(2);
                        true
                    }
                }
                Bcc => {
                    w[0] = op & 0xFF00 | 2;
                    w.push(0x4E71);
                    true
                }
                Trap => self.r.pm(200),
                Chk | Mulu | Muls | Divu | Divs | MoveFromSr | MoveToCcr => {
                    if k == MoveFromSr && sup {
                        // The mask is part of what is read; it is restored by RTE, so this is fine too.
                    }
                    small(self, mode, reg, 2, &mut w)
                }
                Cmpa => small(self, mode, reg, if op & 0x100 != 0 { 4 } else { 2 }, &mut w),
                Abcd | Sbcd | Addx | Subx | Cmpm => {
                    if k == Abcd || k == Sbcd || op & 8 == 0 || reg != 7 && r9 != 7 {
                        op & 8 == 0 || self.r.pm(300) && reg != 7 && r9 != 7
                    } else {
                        false
                    }
                }
                Exg => op & 0xF8 == 0x40,
                Addq | Subq => mode != 1 && small(self, mode, reg, osz, &mut w),
                Tas | K::Scc | Nbcd => small(self, mode, reg, 1, &mut w),
                Asm | Lsm | Roxm | Rom => small(self, mode, reg, 2, &mut w),
                Swap | Ext | Nop | Trapv | Moveq | Asr | Lsr | Roxr | Ror => true,
                _ => mode != 1 && small(self, mode, reg, osz, &mut w) || mode == 1 && reg != 7,
            };
            if ok {
                return w;
            }
        }
    }
}

impl Prog {
    pub fn steps(&self) -> usize {
        self.boundaries().saturating_sub(1)
    }
}
