//! What the text of an instruction has to name, written from the encodings: mnemonic, size, operands and values.
//! Texts are compared by their words, not by spacing, letter case or the base of their numbers.
use crate::model::{kind, K};

const CC: [&str; 16] = ["T", "F", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE"];

struct Rd<'a> {
    get: &'a mut dyn FnMut(u32) -> Option<u16>,
    at: u32,
    /// The bits of each number that count, in the order of the text.
    masks: Vec<u32>,
}

impl Rd<'_> {
    fn word(&mut self) -> Option<u16> {
        let w = (self.get)(self.at);
        self.at = self.at.wrapping_add(2);
        w
    }
    fn num(&mut self, v: u32, mask: u32) -> String {
        self.masks.push(mask);
        format!("{}", v & mask)
    }
    fn imm(&mut self, sz: u8) -> Option<String> {
        let w = self.word()? as u32;
        Some(match sz {
            0 => self.num(w, 0xFF),
            1 => self.num(w, 0xFFFF),
            _ => {
                let v = w << 16 | self.word()? as u32;
                self.num(v, !0)
            }
        })
    }
    fn ea(&mut self, mode: u16, reg: u16, sz: u8) -> Option<String> {
        Some(match (mode, reg) {
            (0, _) => format!("D{reg}"),
            (1, _) => format!("A{reg}"),
            (2, _) => format!("(A{reg})"),
            (3, _) => format!("(A{reg})+"),
            (4, _) => format!("-(A{reg})"),
            (5, _) | (7, 2) => {
                let d = self.imm(1)?;
                if mode == 5 { format!("({d}, A{reg})") } else { format!("({d}, PC)") }
            }
            (6, _) | (7, 3) => {
                let w = self.word()?;
                let d = self.num(w as u8 as i8 as u32, 0xFF);
                let x = format!("{}{}.{}", if w & 0x8000 != 0 { 'A' } else { 'D' }, w >> 12 & 7, if w & 0x0800 != 0 { 'L' } else { 'W' });
                if mode == 6 { format!("({d}, A{reg}, {x})") } else { format!("({d}, PC, {x})") }
            }
            (7, 0) => format!("({}).W", self.imm(1)?),
            (7, 1) => format!("({}).L", self.imm(2)?),
            (7, 4) => format!("#{}", self.imm(sz)?),
            _ => return None,
        })
    }
    /// A branch distance and where it leads to.
    fn dist(&mut self, op: u16, word: bool) -> Option<String> {
        let from = self.at;
        let d = if word || op as u8 == 0 { self.word()? as i16 as u32 } else { op as u8 as i8 as u32 };
        let a = self.num(d, 0xFFFF);
        let b = self.num(from.wrapping_add(d), !0);
        Some(format!("{a} <{b}>"))
    }
}

fn words(s: &str, masks: Option<&[u32]>) -> Vec<String> {
    let c: Vec<char> = s.to_uppercase().chars().filter(|c| !c.is_whitespace() || *c == ' ').collect();
    let mut out: Vec<String> = Vec::new();
    let (mut i, mut n) = (0, 0);
    while i < c.len() {
        let j = i;
        if c[i].is_ascii_alphabetic() {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '.') {
                i += 1;
            }
            out.push(c[j..i].iter().collect());
        } else if c[i].is_ascii_digit() || c[i] == '-' && c.get(i + 1).is_some_and(|d| d.is_ascii_digit()) {
            let neg = c[i] == '-';
            i += neg as usize;
            let hex = c[i] == '0' && c.get(i + 1) == Some(&'X');
            i += 2 * hex as usize;
            let k = i;
            while i < c.len() && c[i].is_ascii_hexdigit() {
                i += 1;
            }
            let t: String = c[k..i].iter().collect();
            let v = i64::from_str_radix(&t, if hex { 16 } else { 10 }).unwrap_or(-0x7777_7777_7777);
            let v = if neg { -v } else { v };
            let m = masks.map_or(!0, |m| m.get(n).copied().unwrap_or(!0));
            n += 1;
            // A number outside what the field can hold is none of its values.
            let fits = v >= -(m as i64) - 1 && v <= if m == 0xFF { 0xFFFF } else { m as i64 };
            out.push(if fits { format!("{}", v as u32 & m) } else { t });
        } else if c[i] == ' ' {
            i += 1;
        } else {
            out.push(c[i].to_string());
            i += 1;
        }
    }
    out
}

/// The wanted text, if what is said about the instruction at `pc` is something else. None where memory refuses a word.
pub fn differs(said: &str, get: &mut dyn FnMut(u32) -> Option<u16>, pc: u32) -> Option<String> {
    let op = get(pc)?;
    let mut r = Rd { get, at: pc.wrapping_add(2), masks: Vec::new() };
    let (m, a, x) = (op >> 3 & 7, op & 7, op >> 9 & 7);
    let sz = (op >> 6 & 3) as u8;
    let s = ["B", "W", "L", "?"][sz as usize];
    let wl = if op & 0x100 != 0 { 2 } else { 1u8 };
    let cc = CC[(op >> 8 & 15) as usize];
    let q = if x == 0 { 8 } else { x };
    let k = kind(op);
    let pair = |n: &str| if op & 8 != 0 { format!("{n} -(A{a}), -(A{x})") } else { format!("{n} D{a}, D{x}") };
    let lr = if op & 0x100 != 0 { 'L' } else { 'R' };
    let t = match k {
        K::OriCcr | K::AndiCcr | K::EoriCcr | K::OriSr | K::AndiSr | K::EoriSr => {
            let n = match k {
                K::OriCcr | K::OriSr => "ORI",
                K::AndiCcr | K::AndiSr => "ANDI",
                _ => "EORI",
            };
            let c = sz == 0;
            let i = r.imm(sz)?;
            format!("{n} {i}, {}", if c { "CCR" } else { "SR" })
        }
        K::Ori | K::Andi | K::Subi | K::Addi | K::Eori | K::Cmpi => {
            let i = r.imm(sz)?;
            let e = r.ea(m, a, sz)?;
            format!("{}.{s} #{i}, {e}", format!("{k:?}").to_uppercase())
        }
        K::Btst | K::Bchg | K::Bclr | K::Bset => {
            let n = format!("{k:?}").to_uppercase();
            if op & 0x100 != 0 {
                let e = r.ea(m, a, 0)?;
                format!("{n} D{x}, {e}")
            } else {
                let i = r.imm(0)?;
                let e = r.ea(m, a, 0)?;
                format!("{n} #{i}, {e}")
            }
        }
        K::Movep => {
            let d = r.imm(1)?;
            let s = if op & 0x40 != 0 { "L" } else { "W" };
            if op & 0x80 != 0 { format!("MOVEP.{s} D{x}, ({d}, A{a})") } else { format!("MOVEP.{s} ({d}, A{a}), D{x}") }
        }
        K::Move | K::Movea => {
            let (s, z) = match op >> 12 {
                1 => ("B", 0),
                3 => ("W", 1),
                _ => ("L", 2),
            };
            let src = r.ea(m, a, z)?;
            if k == K::Movea {
                format!("MOVEA.{s} {src}, A{x}")
            } else {
                let dst = r.ea(op >> 6 & 7, x, z)?;
                format!("MOVE.{s} {src}, {dst}")
            }
        }
        K::MoveFromSr => format!("MOVE SR, {}", r.ea(m, a, 1)?),
        K::MoveToCcr => format!("MOVE {}, CCR", r.ea(m, a, 1)?),
        K::MoveToSr => format!("MOVE {}, SR", r.ea(m, a, 1)?),
        K::MoveUsp => {
            if op & 8 != 0 { format!("MOVE USP, A{a}") } else { format!("MOVE A{a}, USP") }
        }
        K::Negx | K::Clr | K::Neg | K::Not | K::Tst => format!("{}.{s} {}", format!("{k:?}").to_uppercase(), r.ea(m, a, sz)?),
        K::Nbcd | K::Pea | K::Tas | K::Jsr | K::Jmp => format!("{} {}", format!("{k:?}").to_uppercase(), r.ea(m, a, 0)?),
        K::Swap => format!("SWAP D{a}"),
        K::Ext => format!("EXT.{} D{a}", if sz == 2 { "W" } else { "L" }),
        K::Movem => {
            let s = if op & 0x40 != 0 { "L" } else { "W" };
            let w = r.word()?;
            if op & 0x400 != 0 {
                let e = r.ea(m, a, 1)?;
                let l = r.num(w as u32, 0xFFFF);
                format!("MOVEM.{s} {e}, {l}")
            } else {
                let l = r.num(w as u32, 0xFFFF);
                let e = r.ea(m, a, 1)?;
                format!("MOVEM.{s} {l}, {e}")
            }
        }
        K::Illegal => "ILLEGAL".into(),
        K::Trap => format!("TRAP #{}", r.num(op as u32 & 15, !0)),
        K::Link => format!("LINK.W A{a}, #{}", r.imm(1)?),
        K::Unlk => format!("UNLK A{a}"),
        K::Reset | K::Nop | K::Rte | K::Rts | K::Trapv | K::Rtr => format!("{k:?}").to_uppercase(),
        K::Stop => format!("STOP #{}", r.imm(1)?),
        K::Lea => format!("LEA {}, A{x}", r.ea(m, a, 1)?),
        K::Chk => format!("CHK.W {}, D{x}", r.ea(m, a, 1)?),
        K::Divu | K::Divs | K::Mulu | K::Muls => format!("{}.W {}, D{x}", format!("{k:?}").to_uppercase(), r.ea(m, a, 1)?),
        K::Addq | K::Subq => {
            let i = r.num(q as u32, !0);
            format!("{}.{s} #{i}, {}", format!("{k:?}").to_uppercase(), r.ea(m, a, sz)?)
        }
        K::Scc => format!("S{cc} {}", r.ea(m, a, 0)?),
        K::Dbcc => format!("DB{cc} D{a}, {}", r.dist(op, true)?),
        K::Bra => format!("BRA {}", r.dist(op, false)?),
        K::Bsr => format!("BSR {}", r.dist(op, false)?),
        K::Bcc => format!("B{cc} {}", r.dist(op, false)?),
        K::Moveq => format!("MOVEQ.L #{}, D{x}", r.num(op as u32, 0xFF)),
        K::Or | K::And | K::Add | K::Sub => {
            let n = format!("{k:?}").to_uppercase();
            let e = r.ea(m, a, sz)?;
            if op & 0x100 != 0 { format!("{n}.{s} D{x}, {e}") } else { format!("{n}.{s} {e}, D{x}") }
        }
        K::Cmp => format!("CMP.{s} {}, D{x}", r.ea(m, a, sz)?),
        K::Eor => format!("EOR.{s} D{x}, {}", r.ea(m, a, sz)?),
        K::Adda | K::Suba | K::Cmpa => format!("{}.{} {}, A{x}", format!("{k:?}").to_uppercase(), if wl == 2 { "L" } else { "W" }, r.ea(m, a, wl)?),
        K::Sbcd => pair("SBCD"),
        K::Abcd => pair("ABCD"),
        K::Addx => pair(&format!("ADDX.{s}")),
        K::Subx => pair(&format!("SUBX.{s}")),
        K::Cmpm => format!("CMPM.{s} (A{a})+, (A{x})+"),
        K::Exg => match op >> 3 & 31 {
            0b01000 => format!("EXG D{x}, D{a}"),
            0b01001 => format!("EXG A{x}, A{a}"),
            _ => format!("EXG D{x}, A{a}"),
        },
        K::Asm | K::Lsm | K::Roxm | K::Rom | K::Asr | K::Lsr | K::Roxr | K::Ror => {
            let n = match k {
                K::Asm | K::Asr => "AS",
                K::Lsm | K::Lsr => "LS",
                K::Roxm | K::Roxr => "ROX",
                _ => "RO",
            };
            if sz == 3 {
                format!("{n}{lr} {}", r.ea(m, a, 1)?)
            } else if op & 0x20 != 0 {
                format!("{n}{lr}.{s} D{x}, D{a}")
            } else {
                let i = r.num(q as u32, !0);
                format!("{n}{lr}.{s} #{i}, D{a}")
            }
        }
        // No instruction: the opcode and the address are all there is to say.
        K::LineA | K::LineF | K::Unknown => {
            let (t, o) = (said.to_uppercase(), format!("{op:04X}"));
            return (!t.starts_with("UNKNOWN") || !t.contains(&o)).then(|| format!("UNKNOWN INSTRUCTION {o}"));
        }
    };
    (words(said, Some(&r.masks)) != words(&t, Some(&r.masks))).then_some(t)
}
