//! Concrete scripts: everything that happens in one simulated run, as replayable text.
use crate::bus::{Fault, Map};
use crate::core::Api;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// Register write by the host. 0-7 d, 8-14 a, 15 usp, 16 ssp, 17 pc, 18 sr.
    Reg(u8, u32),
    /// Memory write by the host (program load, DMA).
    Mem(u32, Vec<u8>),
    /// Program load of an instruction that the host assembles; not 0: after a request for something near it.
    Asm(u32, Vec<u8>, u32),
    Fault(Fault),
    Unfault,
    Exc(u8),
    /// The same vector requested so many times more, without a step in between.
    Again(u8, u32),
    Step(Api),
    /// So many times from the registers of the moment: a request, if any, and a step.
    Storm(u32, u32, Api),
    Cycle(u64),
    Until(u64),
    Loop,
    /// The duplicate core becomes a clone of the main one.
    Snap,
    Next(u8),
    New(bool),
    /// Steps an unrelated core on its own memory.
    Noise(u64),
    /// Direct accesses to the slice memories at this address.
    Acc(u32, u32),
    /// Direct accesses to small slices of this length.
    Tiny(u32, u32, u32),
    /// Direct accesses to a big slice: which one, address, value.
    Big(u32, u32, u32),
    /// Start of the observed program: the run without interrupts is recorded from here.
    Mark,
    Drain,
    /// The host decodes some instructions in a row from this address, with one iterator.
    Decode(u32, u32),
    /// Buffer length for the next disassembly calls of the C interface.
    Len(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TwinMode {
    None,
    Dis,
    Ffi,
    Det,
    Slice,
    Prog,
    /// Duplicates whose host memory is accounted for.
    Heap,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub prop: u32,
    pub scc: bool,
    /// A CPU type of the user's own, with the stack format given by `scc`.
    pub own: bool,
    pub torn: bool,
    pub map: Map,
    pub image: u64,
    pub twin: TwinMode,
    pub ops: Vec<Op>,
}

pub const REGN: [&str; 19] =
    ["d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "usp", "ssp", "pc", "sr"];

impl Op {
    pub fn text(&self) -> String {
        match self {
            Op::Reg(r, v) => format!("reg {} {:x}", REGN[*r as usize], v),
            Op::Mem(a, b) => format!("mem {:x} {}", a, b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
            Op::Asm(a, b, s) => format!("asm {:x} {} {s:x}", a, b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
            Op::Fault(f) => format!("fault {:x} {:x} {}{}", f.lo, f.len, if f.r { "r" } else { "" }, if f.w { "w" } else { "" }),
            Op::Unfault => "unfault".into(),
            Op::Exc(v) => format!("exc {v}"),
            Op::Again(v, n) => format!("again {v} {n}"),
            Op::Step(a) => format!("step {a:?}"),
            Op::Storm(v, n, a) => format!("storm {v} {n} {a:?}"),
            Op::Cycle(n) => format!("cycle {n}"),
            Op::Until(n) => format!("until {n}"),
            Op::Loop => "loop".into(),
            Op::Snap => "snap".into(),
            Op::Next(w) => format!("next {w}"),
            Op::New(r) => format!("new {}", *r as u8),
            Op::Noise(s) => format!("noise {s:x}"),
            Op::Acc(a, v) => format!("acc {a:x} {v:x}"),
            Op::Tiny(l, a, v) => format!("tiny {l:x} {a:x} {v:x}"),
            Op::Big(l, a, v) => format!("big {l:x} {a:x} {v:x}"),
            Op::Mark => "mark".into(),
            Op::Drain => "drain".into(),
            Op::Decode(a, n) => format!("decode {a:x} {n}"),
            Op::Len(n) => format!("len {n}"),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let t: Vec<&str> = s.split_whitespace().collect();
        let h = |i: usize| u32::from_str_radix(t.get(i)?, 16).ok();
        let n = |i: usize| t.get(i)?.parse::<u32>().ok();
        let api = |i: usize| {
            Some(match *t.get(i)? {
                "I" => Api::I,
                "E" => Api::E,
                "D" => Api::D,
                "X" => Api::X,
                _ => return None,
            })
        };
        Some(match *t.first()? {
            "reg" => Op::Reg(REGN.iter().position(|r| Some(r) == t.get(1))? as u8, h(2)?),
            op @ ("mem" | "asm") => {
                let b = t.get(2).unwrap_or(&"").as_bytes();
                let mut v = Vec::new();
                for c in b.chunks(2) {
                    v.push(u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()?);
                }
                if op == "mem" { Op::Mem(h(1)?, v) } else { Op::Asm(h(1)?, v, h(3)?) }
            }
            "fault" => {
                let f = t.get(3).unwrap_or(&"");
                Op::Fault(Fault { lo: h(1)?, len: h(2)?, r: f.contains('r'), w: f.contains('w') })
            }
            "unfault" => Op::Unfault,
            "exc" => Op::Exc(n(1)? as u8),
            "again" => Op::Again(n(1)? as u8, n(2)?),
            "step" => Op::Step(api(1)?),
            "storm" => Op::Storm(n(1)?, n(2)?, api(3)?),
            "cycle" => Op::Cycle(t.get(1)?.parse().ok()?),
            "until" => Op::Until(t.get(1)?.parse().ok()?),
            "loop" => Op::Loop,
            "snap" => Op::Snap,
            "next" => Op::Next(n(1)? as u8),
            "new" => Op::New(n(1)? != 0),
            "noise" => Op::Noise(u64::from_str_radix(t.get(1)?, 16).ok()?),
            "acc" => Op::Acc(h(1)?, h(2)?),
            "tiny" => Op::Tiny(h(1)?, h(2)?, h(3)?),
            "big" => Op::Big(h(1)?, h(2)?, h(3)?),
            "mark" => Op::Mark,
            "drain" => Op::Drain,
            "decode" => Op::Decode(h(1)?, n(2)?),
            "len" => Op::Len(n(1)?),
            _ => return None,
        })
    }
}

impl Case {
    pub fn header(&self) -> String {
        format!(
            "prop C{:02}\ncpu {}\nlong {}\nmap {}\nimage {:x}\ntwin {:?}\n",
            self.prop,
            match (self.own, self.scc) {
                (false, false) => "mc",
                (false, true) => "scc",
                (true, false) => "own-mc",
                (true, true) => "own-scc",
            },
            if self.torn { "torn" } else { "atomic" },
            match self.map {
                Map::Std => "std".to_string(),
                Map::Lin(n) => format!("lin {n}"),
            },
            self.image,
            self.twin
        )
    }
    pub fn text(&self) -> String {
        let mut s = self.header();
        for o in &self.ops {
            s.push_str(&o.text());
            s.push('\n');
        }
        s
    }
    pub fn parse(s: &str) -> Result<Case, String> {
        let mut c = Case { prop: 1, scc: false, own: false, torn: false, map: Map::Std, image: 0, twin: TwinMode::None, ops: Vec::new() };
        for l in s.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let t: Vec<&str> = l.split_whitespace().collect();
            let a1 = t.get(1).copied().unwrap_or("");
            match t[0] {
                "prop" => c.prop = a1.trim_start_matches('C').parse().map_err(|_| l.to_string())?,
                "cpu" => {
                    c.scc = a1.ends_with("scc");
                    c.own = a1.starts_with("own");
                }
                "long" if t.len() == 2 => c.torn = a1 == "torn",
                "map" => {
                    c.map = if a1 == "lin" { Map::Lin(t.get(2).and_then(|x| x.parse().ok()).ok_or(l.to_string())?) } else { Map::Std }
                }
                "image" => c.image = u64::from_str_radix(a1, 16).map_err(|_| l.to_string())?,
                "twin" => {
                    c.twin = match a1 {
                        "Dis" => TwinMode::Dis,
                        "Ffi" => TwinMode::Ffi,
                        "Det" => TwinMode::Det,
                        "Slice" => TwinMode::Slice,
                        "Prog" => TwinMode::Prog,
                        "Heap" => TwinMode::Heap,
                        _ => TwinMode::None,
                    }
                }
                _ => match Op::parse(l) {
                    Some(o) => c.ops.push(o),
                    None => return Err(format!("bad line: {l}")),
                },
            }
        }
        Ok(c)
    }
}
