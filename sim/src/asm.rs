//! The host assembles the instruction it is about to load. What was asked for is read off the words of the encoding,
//! independently of the crate's decoder; what the assembler answers must be these words, and decode to what was asked.
use crate::model::{kind, K};
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::assembler::{self as a, Condition};
use m68000::instruction::{Direction, Instruction, Operands, Size};
use m68000::isa::Isa;
use m68000::memory_access::MemoryAccess;

const CC: [Condition; 16] = [
    Condition::T, Condition::F, Condition::HI, Condition::LS, Condition::CC, Condition::CS, Condition::NE, Condition::EQ, Condition::VC, Condition::VS, Condition::PL, Condition::MI,
    Condition::GE, Condition::LT, Condition::GT, Condition::LE,
];
const DIRS: [Direction; 13] = [
    Direction::RegisterToMemory, Direction::MemoryToRegister, Direction::DstReg, Direction::DstEa, Direction::Left, Direction::Right, Direction::RegisterToUsp, Direction::UspToRegister,
    Direction::RegisterToRegister, Direction::MemoryToMemory, Direction::ExchangeData, Direction::ExchangeAddress, Direction::ExchangeDataAddress,
];

/// One call of the assembler.
#[derive(Clone, Debug)]
pub struct Call {
    k: K,
    size: Size,
    /// The upper and the lower register field.
    x: u8,
    y: u8,
    /// Bits above those, which only the shifts can be asked for.
    wide: (u16, u16),
    dir: Direction,
    cc: u8,
    am: Am,
    dst: Am,
    /// Immediate value, displacement, register list, count, data or vector.
    v: u32,
    flag: bool,
}

/// The words of an instruction, and nothing else.
struct Words<'a>(u32, &'a [u16]);

impl MemoryAccess for Words<'_> {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        let w = self.get_word(addr & !1)?;
        Some(if addr & 1 == 0 { (w >> 8) as u8 } else { w as u8 })
    }
    fn get_word(&mut self, addr: u32) -> Option<u16> {
        self.1.get(addr.wrapping_sub(self.0) as usize / 2).copied()
    }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> {
        None
    }
    fn set_word(&mut self, _: u32, _: u16) -> Option<()> {
        None
    }
    fn reset_instruction(&mut self) {}
}

struct Rd<'a> {
    w: &'a mut Vec<u16>,
    i: usize,
    pc: u32,
}

impl Rd<'_> {
    fn word(&mut self, mask: u16) -> Option<u16> {
        let p = self.w.get_mut(self.i)?;
        // The bits no field covers are zero in what an assembler writes.
        *p &= mask;
        self.i += 1;
        Some(*p)
    }
    fn imm(&mut self, s: Size) -> Option<u32> {
        Some(match s {
            Size::Byte => self.word(0xFF)? as u32,
            Size::Word => self.word(!0)? as u32,
            Size::Long => (self.word(!0)? as u32) << 16 | self.word(!0)? as u32,
        })
    }
    fn bew(&mut self) -> Option<Bew> {
        let w = self.word(!0)?;
        // Either way to make one.
        Some(if w & 0x0700 == 0 { Bew::new(w & 0x8000 != 0, (w >> 12 & 7) as u8, w & 0x0800 != 0, w as i8) } else { Bew(w) })
    }
    fn ea(&mut self, mode: u16, reg: u16, s: Size) -> Option<Am> {
        let r = reg as u8;
        let here = self.pc.wrapping_add(2 * self.i as u32);
        Some(match (mode, reg) {
            (0, _) => Am::Drd(r),
            (1, _) => Am::Ard(r),
            (2, _) => Am::Ari(r),
            (3, _) => Am::Ariwpo(r),
            (4, _) => Am::Ariwpr(r),
            (5, _) => Am::Ariwd(r, self.word(!0)? as i16),
            (6, _) => Am::Ariwi8(r, self.bew()?),
            (7, 0) => Am::AbsShort(self.word(!0)?),
            (7, 1) => Am::AbsLong(self.imm(Size::Long)?),
            (7, 2) => Am::Pciwd(here, self.word(!0)? as i16),
            (7, 3) => Am::Pciwi8(here, self.bew()?),
            (7, 4) => Am::Immediate(self.imm(s)?),
            _ => return None,
        })
    }
}

/// What has to be asked for to get these words, which lose the bits that no field covers.
fn read(w: &mut Vec<u16>, pc: u32) -> Option<Call> {
    let op = *w.first()?;
    let k = kind(op);
    let mut c = Call { k, size: Size::Word, x: (op >> 9 & 7) as u8, y: (op & 7) as u8, wide: (0, 0), dir: Direction::DstReg, cc: (op >> 8 & 15) as u8, am: Am::Drd(0), dst: Am::Drd(0), v: 0, flag: false };
    let (m, y) = (op >> 3 & 7, op & 7);
    let sized = match op >> 6 & 3 {
        0 => Size::Byte,
        1 => Size::Word,
        _ => Size::Long,
    };
    let side = |bit: u16, one: Direction, zero: Direction| if op & bit != 0 { one } else { zero };
    let mut r = Rd { w, i: 1, pc };
    match k {
        K::OriCcr | K::AndiCcr | K::EoriCcr => c.v = r.imm(Size::Byte)?,
        K::OriSr | K::AndiSr | K::EoriSr | K::Stop => c.v = r.imm(Size::Word)?,
        K::Ori | K::Andi | K::Subi | K::Addi | K::Eori | K::Cmpi => {
            c.size = sized;
            c.v = r.imm(sized)?;
            c.am = r.ea(m, y, sized)?;
        }
        K::Btst | K::Bchg | K::Bclr | K::Bset => {
            c.flag = op & 0x100 != 0;
            if !c.flag {
                c.v = r.imm(Size::Byte)?;
            }
            c.am = r.ea(m, y, Size::Byte)?;
        }
        K::Movep => {
            c.v = r.imm(Size::Word)?;
            c.size = if op & 0x40 != 0 { Size::Long } else { Size::Word };
            c.dir = side(0x80, Direction::RegisterToMemory, Direction::MemoryToRegister);
        }
        K::Move | K::Movea => {
            c.size = match op >> 12 {
                1 => Size::Byte,
                3 => Size::Word,
                _ => Size::Long,
            };
            c.am = r.ea(m, y, c.size)?;
            if k == K::Move {
                c.dst = r.ea(op >> 6 & 7, op >> 9 & 7, c.size)?;
            }
        }
        K::MoveUsp => c.dir = side(8, Direction::UspToRegister, Direction::RegisterToUsp),
        K::Negx | K::Clr | K::Neg | K::Not | K::Tst => {
            c.size = sized;
            c.am = r.ea(m, y, sized)?;
        }
        K::MoveFromSr | K::MoveToCcr | K::MoveToSr | K::Lea | K::Chk | K::Divu | K::Divs | K::Mulu | K::Muls | K::Pea | K::Jsr | K::Jmp => c.am = r.ea(m, y, Size::Word)?,
        K::Nbcd | K::Tas | K::Scc => c.am = r.ea(m, y, Size::Byte)?,
        K::Ext => c.flag = op & 0x40 != 0,
        K::Movem => {
            c.v = r.imm(Size::Word)?;
            c.size = if op & 0x40 != 0 { Size::Long } else { Size::Word };
            c.dir = side(0x400, Direction::MemoryToRegister, Direction::RegisterToMemory);
            c.am = r.ea(m, y, c.size)?;
        }
        K::Trap => c.v = op as u32 & 15,
        K::Link | K::Dbcc => c.v = r.imm(Size::Word)?,
        K::Addq | K::Subq => {
            c.v = if c.x == 0 { 8 } else { c.x as u32 };
            c.size = sized;
            c.am = r.ea(m, y, sized)?;
        }
        K::Bra | K::Bsr | K::Bcc => c.v = if op as u8 == 0 { r.imm(Size::Word)? } else { op as u8 as i8 as u32 },
        K::Moveq => c.v = op as u32 & 0xFF,
        K::Or | K::And | K::Add | K::Sub | K::Cmp | K::Eor => {
            c.size = sized;
            c.dir = side(0x100, Direction::DstEa, Direction::DstReg);
            c.am = r.ea(m, y, sized)?;
        }
        K::Adda | K::Suba | K::Cmpa => {
            c.size = if op & 0x100 != 0 { Size::Long } else { Size::Word };
            c.am = r.ea(m, y, c.size)?;
        }
        K::Abcd | K::Sbcd | K::Addx | K::Subx => {
            c.size = sized;
            c.dir = side(8, Direction::MemoryToMemory, Direction::RegisterToRegister);
        }
        K::Cmpm => c.size = sized,
        K::Exg => {
            c.dir = match op >> 3 & 31 {
                0b01000 => Direction::ExchangeData,
                0b01001 => Direction::ExchangeAddress,
                _ => Direction::ExchangeDataAddress,
            }
        }
        K::Asm | K::Lsm | K::Roxm | K::Rom => {
            c.dir = side(0x100, Direction::Left, Direction::Right);
            c.am = r.ea(m, y, Size::Byte)?;
        }
        K::Asr | K::Lsr | K::Roxr | K::Ror => {
            c.dir = side(0x100, Direction::Left, Direction::Right);
            c.size = sized;
            c.flag = op & 0x20 != 0;
        }
        K::Swap | K::Unlk | K::Illegal | K::Reset | K::Nop | K::Rte | K::Rts | K::Trapv | K::Rtr => {}
        K::LineA | K::LineF | K::Unknown => return None,
    }
    let n = r.i;
    w.truncate(n);
    Some(c)
}

impl Call {
    fn make(&self) -> Vec<u16> {
        let Call { size, x, y, dir, am, v, .. } = *self;
        let cc = CC[self.cc as usize];
        let (w, d) = (v as u16, v as u16 as i16);
        match self.k {
            K::OriCcr => a::oriccr(w).to_vec(),
            K::AndiCcr => a::andiccr(w).to_vec(),
            K::EoriCcr => a::eoriccr(w).to_vec(),
            K::OriSr => a::orisr(w).to_vec(),
            K::AndiSr => a::andisr(w).to_vec(),
            K::EoriSr => a::eorisr(w).to_vec(),
            K::Stop => a::stop(w).to_vec(),
            K::Ori => a::ori(size, am, v),
            K::Andi => a::andi(size, am, v),
            K::Subi => a::subi(size, am, v),
            K::Addi => a::addi(size, am, v),
            K::Eori => a::eori(size, am, v),
            K::Cmpi => a::cmpi(size, am, v),
            K::Btst if self.flag => a::btst_dynamic(x, am),
            K::Bchg if self.flag => a::bchg_dynamic(x, am),
            K::Bclr if self.flag => a::bclr_dynamic(x, am),
            K::Bset if self.flag => a::bset_dynamic(x, am),
            K::Btst => a::btst_static(am, v as u8),
            K::Bchg => a::bchg_static(am, v as u8),
            K::Bclr => a::bclr_static(am, v as u8),
            K::Bset => a::bset_static(am, v as u8),
            K::Movep => a::movep(x, dir, size, y, d).to_vec(),
            K::Move => a::r#move(size, self.dst, am),
            K::Movea => a::movea(size, x, am),
            K::MoveFromSr => a::movefsr(am),
            K::MoveToCcr => a::moveccr(am),
            K::MoveToSr => a::movesr(am),
            K::MoveUsp => vec![a::moveusp(dir, y)],
            K::Negx => a::negx(size, am),
            K::Clr => a::clr(size, am),
            K::Neg => a::neg(size, am),
            K::Not => a::not(size, am),
            K::Tst => a::tst(size, am),
            K::Nbcd => a::nbcd(am),
            K::Pea => a::pea(am),
            K::Tas => a::tas(am),
            K::Jsr => a::jsr(am),
            K::Jmp => a::jmp(am),
            K::Swap => vec![a::swap(y)],
            K::Ext => vec![a::ext(self.flag, y)],
            K::Movem => a::movem(dir, size, am, w),
            K::Illegal => vec![a::illegal()],
            K::Trap => vec![a::trap(v as u8)],
            K::Link => a::link(y, d).to_vec(),
            K::Unlk => vec![a::unlk(y)],
            K::Reset => vec![a::reset()],
            K::Nop => vec![a::nop()],
            K::Rte => vec![a::rte()],
            K::Rts => vec![a::rts()],
            K::Trapv => vec![a::trapv()],
            K::Rtr => vec![a::rtr()],
            K::Lea => a::lea(x, am),
            K::Chk => a::chk(x, am),
            K::Divu => a::divu(x, am),
            K::Divs => a::divs(x, am),
            K::Mulu => a::mulu(x, am),
            K::Muls => a::muls(x, am),
            K::Addq => a::addq(v as u8, size, am),
            K::Subq => a::subq(v as u8, size, am),
            K::Scc => a::scc(cc, am),
            K::Dbcc => a::dbcc(cc, y, d).to_vec(),
            K::Bra => a::bra(d),
            K::Bsr => a::bsr(d),
            K::Bcc => a::bcc(cc, d),
            K::Moveq => vec![a::moveq(x, v as u8 as i8)],
            K::Or => a::or(x, dir, size, am),
            K::And => a::and(x, dir, size, am),
            K::Add => a::add(x, dir, size, am),
            K::Sub => a::sub(x, dir, size, am),
            K::Cmp => a::cmp(x, size, am),
            K::Eor => a::eor(x, size, am),
            K::Adda => a::adda(x, size, am),
            K::Suba => a::suba(x, size, am),
            K::Cmpa => a::cmpa(x, size, am),
            K::Abcd => vec![a::abcd(x, dir, y)],
            K::Sbcd => vec![a::sbcd(x, dir, y)],
            K::Addx => vec![a::addx(x, size, dir, y)],
            K::Subx => vec![a::subx(x, size, dir, y)],
            K::Cmpm => vec![a::cmpm(x, size, y)],
            K::Exg => vec![a::exg(x, dir, y)],
            K::Asm => a::asm(dir, am),
            K::Lsm => a::lsm(dir, am),
            K::Roxm => a::roxm(dir, am),
            K::Rom => a::rom(dir, am),
            K::Asr => vec![a::asr(x as u16 | self.wide.0, dir, size, self.flag, y as u16 | self.wide.1)],
            K::Lsr => vec![a::lsr(x as u16 | self.wide.0, dir, size, self.flag, y as u16 | self.wide.1)],
            K::Roxr => vec![a::roxr(x as u16 | self.wide.0, dir, size, self.flag, y as u16 | self.wide.1)],
            K::Ror => vec![a::ror(x as u16 | self.wide.0, dir, size, self.flag, y as u16 | self.wide.1)],
            K::LineA | K::LineF | K::Unknown => unreachable!(),
        }
    }

    /// The operands as the decoder presents them.
    fn operands(&self) -> Operands {
        use Operands as O;
        let Call { size, mut x, mut y, dir, am, v, cc, .. } = *self;
        if self.wide != (0, 0) {
            (x, y) = (!0, !0);
        }
        let d = v as u16 as i16;
        match self.k {
            K::OriCcr | K::AndiCcr | K::EoriCcr | K::OriSr | K::AndiSr | K::EoriSr | K::Stop => O::Immediate(v as u16),
            K::Ori | K::Andi | K::Subi | K::Addi | K::Eori | K::Cmpi => O::SizeEffectiveAddressImmediate(size, am, v),
            K::Btst | K::Bchg | K::Bclr | K::Bset => O::EffectiveAddressCount(am, if self.flag { x } else { v as u8 }),
            K::Movep => O::RegisterDirectionSizeRegisterDisplacement(x, dir, size, y, d),
            K::Move => O::SizeEffectiveAddressEffectiveAddress(size, self.dst, am),
            K::Movea => O::SizeRegisterEffectiveAddress(size, x, am),
            K::MoveFromSr | K::MoveToCcr | K::MoveToSr | K::Nbcd | K::Pea | K::Tas | K::Jsr | K::Jmp => O::EffectiveAddress(am),
            K::MoveUsp => O::DirectionRegister(dir, y),
            K::Negx | K::Clr | K::Neg | K::Not | K::Tst => O::SizeEffectiveAddress(size, am),
            K::Swap | K::Unlk => O::Register(y),
            K::Ext => O::OpmodeRegister(if self.flag { 3 } else { 2 }, y),
            K::Movem => O::DirectionSizeEffectiveAddressList(dir, size, am, v as u16),
            K::Trap => O::Vector(v as u8),
            K::Link => O::RegisterDisplacement(y, d),
            K::Lea | K::Chk | K::Divu | K::Divs | K::Mulu | K::Muls => O::RegisterEffectiveAddress(x, am),
            // The field holds 0 for 8.
            // 0 stands for 8, so a request for 0 has no encoding.
            K::Addq | K::Subq => O::DataSizeEffectiveAddress(match v {
                0 => !0,
                8 => 0,
                v => v as u8,
            }, size, am),
            K::Scc => O::ConditionEffectiveAddress(cc, am),
            K::Dbcc => O::ConditionRegisterDisplacement(cc, y, d),
            K::Bra | K::Bsr => O::Displacement(d),
            K::Bcc => O::ConditionDisplacement(cc, d),
            K::Moveq => O::RegisterData(x, v as u8 as i8),
            K::Or | K::And | K::Add | K::Sub => O::RegisterDirectionSizeEffectiveAddress(x, dir, size, am),
            K::Cmp => O::RegisterDirectionSizeEffectiveAddress(x, Direction::DstReg, size, am),
            K::Eor => O::RegisterDirectionSizeEffectiveAddress(x, Direction::DstEa, size, am),
            K::Adda | K::Suba | K::Cmpa => O::RegisterSizeEffectiveAddress(x, size, am),
            K::Abcd | K::Sbcd => O::RegisterSizeModeRegister(x, Size::Byte, dir, y),
            K::Addx | K::Subx => O::RegisterSizeModeRegister(x, size, dir, y),
            K::Cmpm => O::RegisterSizeRegister(x, size, y),
            K::Exg => O::RegisterOpmodeRegister(x, dir, y),
            K::Asm | K::Lsm | K::Roxm | K::Rom => O::DirectionEffectiveAddress(dir, am),
            K::Asr | K::Lsr | K::Roxr | K::Ror => O::RotationDirectionSizeModeRegister(x, dir, size, self.flag, y),
            _ => O::NoOperands,
        }
    }

    fn isa(&self) -> String {
        match self.k {
            K::MoveToCcr => "moveccr".into(),
            K::MoveToSr => "movesr".into(),
            K::MoveFromSr => "movefsr".into(),
            k => format!("{k:?}").to_lowercase(),
        }
    }

    /// Something wrong with the request, most of the time.
    fn spoil(&mut self, s: u32) {
        let (n, s) = (s >> 4, s % 10);
        // One past the end half of the time.
        let bad = 8 + if n & 0x100 == 0 { 0 } else { (n % 248) as u8 };
        let other = |am: Am, n: u32| {
            let r = (n >> 4 & 7) as u8;
            match n % 18 {
                0 => Am::Drd(r),
                1 => Am::Ard(r),
                2 => Am::Ari(r),
                3 => Am::Ariwpo(r),
                4 => Am::Ariwpr(r),
                5 => Am::Ariwd(r, (n >> 8) as i16),
                6 => Am::AbsShort((n >> 8) as u16),
                7 => Am::AbsLong(n),
                8 => Am::Immediate(n >> 8 & 0xFF),
                _ => match am {
                    Am::Drd(_) => Am::Drd(bad),
                    Am::Ard(_) => Am::Ard(bad),
                    Am::Ari(_) => Am::Ari(bad),
                    Am::Ariwpo(_) => Am::Ariwpo(bad),
                    Am::Ariwpr(_) => Am::Ariwpr(bad),
                    Am::Ariwd(_, d) => Am::Ariwd(bad, d),
                    Am::Ariwi8(_, b) => Am::Ariwi8(bad, b),
                    _ => Am::Immediate(n >> 8 & 0xFF),
                },
            }
        };
        match s {
            0 | 1 if n & 0x200 != 0 && matches!(self.k, K::Asr | K::Lsr | K::Roxr | K::Ror) => {
                let b = 0x100 << (n >> 10 & 7);
                self.wide = if s == 0 { (b, 0) } else { (0, b) };
            }
            0 => self.x = bad,
            1 => self.y = bad,
            2 | 3 => self.am = other(self.am, n),
            4 => self.dst = other(self.dst, n),
            5 => self.size = [Size::Byte, Size::Word, Size::Long][n as usize % 3],
            6 => self.dir = DIRS[n as usize % 13],
            7 => self.cc = (n & 1) as u8,
            8 if matches!(self.k, K::Addq | K::Subq) => self.v = [0, 9, n & 0xFF][n as usize % 3],
            8 if self.k == K::Trap => self.v = 16 + if n & 1 == 0 { 0 } else { n >> 1 & 0x7F },
            _ => (self.am, self.size) = (other(self.am, n), Size::Byte),
        }
        // Values wider than the operand are cut, by design.
        if matches!(s, 5 | 8 | 9) && self.size != Size::Long {
            let m = if self.size == Size::Byte { 0xFF } else { 0xFFFF };
            if let Am::Immediate(v) = self.am {
                self.am = Am::Immediate(v & m);
            }
            if matches!(self.operands(), Operands::SizeEffectiveAddressImmediate(..)) {
                self.v &= m;
            }
        }
    }
}

fn same(k: &str, c: &Call, pc: u32, got: &[u16]) -> Result<(), String> {
    let want = c.operands();
    let r = crate::core::guard(|| {
        let mut m = Words(pc, got);
        let mut it = m.iter_u16(pc);
        let i = Instruction::from_memory(&mut it).map_err(|e| format!("exception {e}"))?;
        Ok::<_, String>((i.opcode, i.pc, i.operands, it.next_addr, format!("{:?}", Isa::from(i.opcode)).to_lowercase()))
    });
    let end = pc.wrapping_add(2 * got.len() as u32);
    match r {
        Ok(Ok((op, at, ops, next, isa))) => {
            if isa != k || op != got[0] || at != pc || ops != want || next != end {
                return Err(format!("{got:04x?} decodes to {isa} {ops:?} at {at:08x} up to {next:08x}, asked for {k} {want:?}"));
            }
            Ok(())
        }
        Ok(Err(e)) => Err(format!("{got:04x?} cannot be decoded: {e}; asked for {k} {want:?}")),
        Err(e) => Err(format!("{got:04x?} cannot be decoded: {e:?}; asked for {k} {want:?}")),
    }
}

/// What came of it: the words to load, or none if the words name no instruction.
pub struct Done {
    pub words: Option<Vec<u16>>,
    pub refused: bool,
    pub known: bool,
    pub bad: Option<String>,
}

/// Asks for the instruction with these words at `pc`, or (`spoil`) for something near it that may not exist.
pub fn assemble(words: &[u16], pc: u32, spoil: u32) -> Done {
    let mut w = words.to_vec();
    let mut done = Done { words: None, refused: false, known: false, bad: None };
    let Some(c) = read(&mut w, pc) else { return done };
    if spoil != 0 {
        let mut c = c.clone();
        c.spoil(spoil);
        match crate::core::guard(|| c.make()) {
            Err(_) => done.refused = true,
            // Recorded: bit numbers are tested in an immediate value, which the 68000 cannot do. The tests of the crate demand it.
            Ok(got) if c.k == K::Btst && !c.flag && c.am.is_immediate() && got.first() == Some(&0x083C) && Isa::from(0x083C) == Isa::Unknown => done.known = true,
            Ok(got) => done.bad = same(&c.isa(), &c, pc, &got).err(),
        }
        let r = 8 + (spoil >> 8) as u8 % 248;
        if let Ok(b) = crate::core::guard(|| Bew::new(spoil & 1 != 0, r, spoil & 2 != 0, spoil as i8)) {
            done.bad = Some(format!("an index register {r} gives the extension word {:04x}", b.0));
        }
    }
    match crate::core::guard(|| c.make()) {
        Err(e) => done.bad = Some(format!("{} {:?} cannot be assembled: {e:?}", c.isa(), c.operands())),
        Ok(got) => {
            // A branch has two forms.
            let two = matches!(c.k, K::Bra | K::Bsr | K::Bcc);
            if let Err(e) = same(&c.isa(), &c, pc, &got) {
                done.bad = Some(e);
            } else if got != w && !two {
                done.bad = Some(format!("{} {:?} gives {got:04x?} instead of {w:04x?}", c.isa(), c.operands()));
            } else {
                done.words = Some(got);
            }
        }
    }
    done
}
