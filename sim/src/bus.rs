//! The simulated memory system: RAM, ROM, a device with read and write side effects, holes,
//! and injected bus faults. Everything the core can observe from outside goes through here.
use crate::rng::mix;
use m68000::MemoryAccess;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fault {
    pub lo: u32,
    pub len: u32,
    pub r: bool,
    pub w: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Map {
    /// RAM0, RAM1, ROM, device, top of address space.
    Std,
    /// One RAM of the given size starting at 0 (what the slice memories are).
    Lin(u32),
}

pub const RAM0: u32 = 0;
pub const RAM0_LEN: u32 = 0x4000;
pub const RAM1: u32 = 0x10_0000;
pub const RAM1_LEN: u32 = 0x2000;
pub const ROM: u32 = 0xE0_0000;
pub const ROM_LEN: u32 = 0x400;
pub const DEV: u32 = 0xF0_0000;
pub const DEV_LEN: u32 = 0x200;
pub const TOP: u32 = 0xFFFF_E000;
pub const TOP_LEN: u32 = 0x2000;
const I_RAM1: u32 = RAM0_LEN;
const I_ROM: u32 = I_RAM1 + RAM1_LEN;
const I_DEV: u32 = I_ROM + ROM_LEN;
const I_TOP: u32 = I_DEV + DEV_LEN;
pub const STD_SIZE: u32 = I_TOP + TOP_LEN;

#[derive(Clone)]
pub struct Mem {
    pub map: Map,
    pub data: Vec<u8>,
    pub dev_reads: Vec<u8>,
    pub faults: Vec<Fault>,
    pub dev_writes: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Cell {
    Ram(usize),
    Rom(usize),
    Dev(usize),
}

pub fn dev_value(off: usize, reads: u8, last: u8) -> u8 {
    mix(off as u64 | (reads as u64) << 16 | (last as u64) << 32) as u8
}

impl Mem {
    pub fn new(map: Map) -> Self {
        let n = match map {
            Map::Std => STD_SIZE,
            Map::Lin(l) => l,
        };
        Mem { map, data: vec![0; n as usize], dev_reads: vec![0; DEV_LEN as usize], faults: Vec::new(), dev_writes: 0 }
    }
    #[inline]
    pub fn cell(&self, a: u32) -> Option<Cell> {
        match self.map {
            Map::Lin(l) => {
                if a < l {
                    Some(Cell::Ram(a as usize))
                } else {
                    None
                }
            }
            Map::Std => {
                if a < RAM0_LEN {
                    Some(Cell::Ram(a as usize))
                } else if a >= TOP {
                    Some(Cell::Ram((I_TOP + (a - TOP)) as usize))
                } else if a.wrapping_sub(RAM1) < RAM1_LEN {
                    Some(Cell::Ram((I_RAM1 + (a - RAM1)) as usize))
                } else if a.wrapping_sub(DEV) < DEV_LEN {
                    Some(Cell::Dev((a - DEV) as usize))
                } else if a.wrapping_sub(ROM) < ROM_LEN {
                    Some(Cell::Rom((I_ROM + (a - ROM)) as usize))
                } else {
                    None
                }
            }
        }
    }
    fn faulted(&self, a: u32, w: bool) -> bool {
        self.faults.iter().any(|f| (if w { f.w } else { f.r }) && a.wrapping_sub(f.lo) < f.len)
    }
    pub fn readable(&self, a: u32) -> bool {
        self.cell(a).is_some() && !self.faulted(a, false)
    }
    pub fn writable(&self, a: u32) -> bool {
        matches!(self.cell(a), Some(Cell::Ram(_)) | Some(Cell::Dev(_))) && !self.faulted(a, true)
    }
    /// Reads without side effect, for host use.
    pub fn peek(&self, a: u32) -> u8 {
        match self.cell(a) {
            Some(Cell::Ram(i)) | Some(Cell::Rom(i)) => self.data[i],
            Some(Cell::Dev(o)) => dev_value(o, self.dev_reads[o], self.data[I_DEV as usize + o]),
            None => 0,
        }
    }
    pub fn peek16(&self, a: u32) -> u16 {
        (self.peek(a) as u16) << 8 | self.peek(a.wrapping_add(1)) as u16
    }
    pub fn peek32(&self, a: u32) -> u32 {
        (self.peek16(a) as u32) << 16 | self.peek16(a.wrapping_add(2)) as u32
    }
    pub fn dev_state(&self, o: usize) -> (u8, u8) {
        (self.dev_reads[o], self.data[I_DEV as usize + o])
    }
    /// Host write (DMA, ROM image, ...): never refused where memory exists.
    pub fn poke(&mut self, a: u32, v: u8) {
        match self.cell(a) {
            Some(Cell::Ram(i)) | Some(Cell::Rom(i)) => self.data[i] = v,
            Some(Cell::Dev(o)) => self.data[I_DEV as usize + o] = v,
            None => {}
        }
    }
    pub fn poke16(&mut self, a: u32, v: u16) {
        self.poke(a, (v >> 8) as u8);
        self.poke(a.wrapping_add(1), v as u8);
    }
    pub fn poke32(&mut self, a: u32, v: u32) {
        self.poke16(a, (v >> 16) as u16);
        self.poke16(a.wrapping_add(2), v as u16);
    }
    #[inline]
    pub fn read_byte_fx(&mut self, a: u32) -> u8 {
        match self.cell(a) {
            Some(Cell::Ram(i)) | Some(Cell::Rom(i)) => self.data[i],
            Some(Cell::Dev(o)) => {
                let v = dev_value(o, self.dev_reads[o], self.data[I_DEV as usize + o]);
                self.dev_reads[o] = self.dev_reads[o].wrapping_add(1);
                v
            }
            None => 0,
        }
    }
    /// The cell state of one byte (value, device read count), for comparing two memories.
    pub fn state(&self, a: u32) -> (u8, u8) {
        match self.cell(a) {
            Some(Cell::Ram(i)) | Some(Cell::Rom(i)) => (self.data[i], 0),
            Some(Cell::Dev(o)) => (self.data[I_DEV as usize + o], self.dev_reads[o]),
            None => (0, 0),
        }
    }
    pub fn sync_byte(&mut self, from: &Mem, a: u32) {
        match self.cell(a) {
            Some(Cell::Ram(i)) | Some(Cell::Rom(i)) => self.data[i] = from.data[i],
            Some(Cell::Dev(o)) => {
                self.data[I_DEV as usize + o] = from.data[I_DEV as usize + o];
                self.dev_reads[o] = from.dev_reads[o];
            }
            None => {}
        }
    }
    pub fn same(&self, o: &Mem) -> bool {
        self.data == o.data && self.dev_reads == o.dev_reads
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0u64;
        for c in self.data.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            h = mix(h ^ u64::from_le_bytes(b));
        }
        h
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Acc {
    pub w: bool,
    pub addr: u32,
    pub size: u8,
    pub val: u32,
    pub ok: bool,
    /// Model only: which operand the access belongs to.
    pub tag: u8,
}

impl std::fmt::Display for Acc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{} {:08x}={:x}{}", if self.w { 'W' } else { 'R' }, self.size * 8, self.addr, self.val, if self.ok { "" } else { " REFUSED" })
    }
}

/// Panic payload of the watchdog, told apart from panics of the code under test.
pub struct Runaway;

#[derive(Clone)]
pub struct Bus {
    pub mem: Mem,
    pub log: Vec<Acc>,
    pub odd: Option<Acc>,
    pub resets: u32,
    pub limit: u32,
    pub count: u32,
    pub logging: bool,
}

impl Bus {
    pub fn new(mem: Mem) -> Self {
        Bus { mem, log: Vec::with_capacity(128), odd: None, resets: 0, limit: 2000, count: 0, logging: true }
    }
    pub fn begin(&mut self) {
        self.log.clear();
        self.odd = None;
        self.count = 0;
    }
    #[inline]
    fn tick(&mut self) {
        self.count += 1;
        if self.count > self.limit {
            std::panic::panic_any(Runaway);
        }
    }
    fn read(&mut self, addr: u32, size: u8) -> Option<u32> {
        let _p = crate::heap::Pause::new();
        self.tick();
        let mut acc = Acc { w: false, addr, size, val: 0, ok: false, tag: 0 };
        if size > 1 && addr & 1 != 0 {
            self.odd = Some(acc);
        }
        for i in 0..size as u32 {
            if !self.mem.readable(addr.wrapping_add(i)) {
                if self.logging {
                    self.log.push(acc);
                }
                return None;
            }
        }
        for i in 0..size as u32 {
            acc.val = acc.val << 8 | self.mem.read_byte_fx(addr.wrapping_add(i)) as u32;
        }
        acc.ok = true;
        if self.logging {
            self.log.push(acc);
        }
        Some(acc.val)
    }
    fn write(&mut self, addr: u32, size: u8, val: u32) -> Option<()> {
        let _p = crate::heap::Pause::new();
        self.tick();
        let mut acc = Acc { w: true, addr, size, val, ok: false, tag: 0 };
        if size > 1 && addr & 1 != 0 {
            self.odd = Some(acc);
        }
        for i in 0..size as u32 {
            if !self.mem.writable(addr.wrapping_add(i)) {
                if self.logging {
                    self.log.push(acc);
                }
                return None;
            }
        }
        acc.ok = true;
        for i in 0..size as u32 {
            let sh = 8 * (size as u32 - 1 - i);
            self.mem.poke(addr.wrapping_add(i), (val >> sh) as u8);
        }
        if self.logging {
            self.log.push(acc);
        }
        Some(())
    }
}

/// Memory whose long accesses are two word transfers (the trait's default), as on a 16-bit bus.
pub struct Torn<'a>(pub &'a mut Bus);
/// Memory that overrides the long accesses, accepting or refusing all four bytes at once.
pub struct Atomic<'a>(pub &'a mut Bus);

impl MemoryAccess for Torn<'_> {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        self.0.read(addr, 1).map(|v| v as u8)
    }
    fn get_word(&mut self, addr: u32) -> Option<u16> {
        self.0.read(addr, 2).map(|v| v as u16)
    }
    fn set_byte(&mut self, addr: u32, value: u8) -> Option<()> {
        self.0.write(addr, 1, value as u32)
    }
    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> {
        self.0.write(addr, 2, value as u32)
    }
    fn reset_instruction(&mut self) {
        self.0.resets += 1;
    }
}

impl MemoryAccess for Atomic<'_> {
    fn get_byte(&mut self, addr: u32) -> Option<u8> {
        self.0.read(addr, 1).map(|v| v as u8)
    }
    fn get_word(&mut self, addr: u32) -> Option<u16> {
        self.0.read(addr, 2).map(|v| v as u16)
    }
    fn get_long(&mut self, addr: u32) -> Option<u32> {
        self.0.read(addr, 4)
    }
    fn set_byte(&mut self, addr: u32, value: u8) -> Option<()> {
        self.0.write(addr, 1, value as u32)
    }
    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> {
        self.0.write(addr, 2, value as u32)
    }
    fn set_long(&mut self, addr: u32, value: u32) -> Option<()> {
        self.0.write(addr, 4, value)
    }
    fn reset_instruction(&mut self) {
        self.0.resets += 1;
    }
}

// What the C callbacks do.
pub fn raw_read(b: &mut Bus, addr: u32, size: u8) -> Option<u32> {
    b.read(addr, size)
}
pub fn raw_write(b: &mut Bus, addr: u32, size: u8, v: u32) -> Option<()> {
    b.write(addr, size, v)
}
