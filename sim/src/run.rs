//! One simulated world: the real core, the simulated memory system, and the reference model that
//! predicts every step. All nondeterminism comes in through the operations of [`crate::ops`].
use crate::bus::*;
use crate::core::*;
use crate::model::{self, Out, St, K};
use crate::ops::*;
use crate::rng::{mix, Rng};
use m68000::{MemoryAccess, Registers};
use std::collections::{BTreeMap, HashMap, HashSet};

pub const fn p(n: u32) -> u32 {
    1 << n
}

#[derive(Clone, Debug)]
pub struct Div {
    pub mask: u32,
    pub kind: &'static str,
    pub msg: String,
}

#[derive(Default, Clone)]
pub struct Cov {
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub cycles: u64,
    pub steps: u64,
    pub instr: u64,
    pub accesses: u64,
    pub pairs: HashSet<u64>,
}
impl Cov {
    pub fn hit(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
}

pub enum Twin {
    Dis(Rust, Box<Bus>),
    Ffi(Option<FfiCore>, Box<FfiHost>),
    Same(Rust, Box<Bus>),
    S8(Rust, Vec<u8>),
    S16(Rust, Vec<u16>),
}

/// One instruction boundary of the uninterrupted program.
#[derive(Clone, PartialEq)]
struct Snap {
    d: [u32; 8],
    a: [u32; 7],
    usp: u32,
    ssp: u32,
    sr: u16,
    pc: u32,
    mem: u64,
    vec: Option<u8>,
}

pub struct Prog {
    base: Vec<Snap>,
    pub n: usize,
    pub want: [u32; 256],
    pub pend: [bool; 256],
    pub sup: bool,
    pub done: bool,
    /// The handlers ran out of stack: nothing can be said any more.
    pub wrecked: bool,
}

impl Prog {
    pub fn boundaries(&self) -> usize {
        self.base.len()
    }
}

pub const PROG_LO: u32 = 0x1000;
pub const PROG_HI: u32 = 0x2800;
pub const CNT: u32 = 0x2800;
pub const PROG_DATA_LO: u32 = 0x2C00;
pub const PROG_DATA_HI: u32 = 0x3400;
/// The supervisor stack of a program and its handlers, and how low it may get.
pub const STACK_LO: u32 = 0x3400;
pub const STACK_HI: u32 = 0x4000;
pub const SSP_MIN: u32 = 0x3500;

pub struct World {
    pub case: Case,
    pub scc: bool,
    pub torn: bool,
    pub core: Rust,
    pub bus: Bus,
    pub st: St,
    pub mem: Mem,
    pub divs: Vec<Div>,
    pub ended: bool,
    pub last: Option<Res>,
    pub last_out: Option<Out>,
    pub kf: u64,
    pub cov: Cov,
    pub twins: Vec<Twin>,
    noise: Option<Box<(Rust, Bus)>>,
    pub hashes: Vec<u64>,
    since_fault: u32,
    since_failed: u32,
    since_wake: u32,
    since_reset: u32,
    was_stopped_req: bool,
    pub len: usize,
    pub prog: Option<Prog>,
    /// Model free: no reference model is consulted (used where only equivalence is at stake).
    pub bare: bool,
    trace: bool,
    pub capture: Option<Vec<Acc>>,
    prev_sig: u64,
    heap: Vec<crate::heap::Twin>,
    left: model::Left,
    /// What the host's decoder said about the instruction at this address, until memory may have changed.
    decoded: Option<(u32, u32, String)>,
}

/// Vectors fetched by exception processing, in order, as seen on the bus. A leading read of address 0 is
/// a reset unless the program counter itself is there (`at0`).
fn seen_vectors(log: &[Acc], at0: bool) -> Vec<u8> {
    let mut v = Vec::new();
    let mut wrote = false;
    let mut half = None;
    for (i, a) in log.iter().enumerate() {
        if a.w {
            wrote = true;
            half = None;
            continue;
        }
        if half == Some(a.addr) {
            // Second word of a vector on a word-wide bus.
            half = None;
            continue;
        }
        if a.addr >= 0x400 || a.size < 2 || a.addr & 3 != 0 {
            break;
        }
        if wrote || i == 0 && a.addr == 0 && !at0 {
            v.push((a.addr >> 2) as u8);
            wrote = false;
        } else if !(a.addr == 4 && v == [0]) {
            break;
        }
        half = if a.size == 2 { Some(a.addr + 2) } else { None };
    }
    v
}

/// Every order of a few exceptions that contradicts no documented pair.
fn orders(elig: &[u8]) -> Vec<Vec<u8>> {
    fn go(rest: &[u8], cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if rest.is_empty() {
            out.push(cur.clone());
            return;
        }
        for i in 0..rest.len() {
            if out.len() >= 720 {
                return;
            }
            if rest.iter().enumerate().any(|(j, y)| j != i && model::before(*y, rest[i])) {
                continue;
            }
            let mut r = rest.to_vec();
            let x = r.remove(i);
            cur.push(x);
            go(&r, cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    go(elig, &mut Vec::new(), &mut out);
    out
}

/// Whether a predicted log agrees with what was observed (addresses, directions, sizes, refusals).
fn same_shape(a: &[Acc], b: &[Acc]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.addr == y.addr && x.w == y.w && x.size == y.size && x.ok == y.ok && (!x.w || x.val == y.val))
}

/// The same question when the core moves a long in two halves, or the other way round: byte by byte, between
/// one refusal and the next, leaving out what lies next to the refused transfer.
fn same_bytes(a: &[Acc], b: &[Acc]) -> bool {
    type Seg = (std::collections::BTreeMap<(u32, bool), u8>, Option<(u32, u32)>);
    fn segs(l: &[Acc]) -> Vec<Seg> {
        let mut v: Vec<Seg> = vec![Default::default()];
        for x in l {
            let s = v.last_mut().unwrap();
            if !x.ok {
                s.1 = Some((x.addr, x.addr.wrapping_add(x.size as u32)));
                v.push(Default::default());
                continue;
            }
            for i in 0..x.size as u32 {
                s.0.insert((x.addr.wrapping_add(i), x.w), if x.w { (x.val >> (8 * (x.size as u32 - 1 - i))) as u8 } else { 0 });
            }
        }
        v
    }
    let (a, b) = (segs(a), segs(b));
    a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| match (x.1, y.1) {
            (None, None) => x.0 == y.0,
            (Some(r), Some(q)) => {
                let near = |k: u32| [r, q].iter().any(|r| k.wrapping_sub(r.0.wrapping_sub(2)) < r.1.wrapping_sub(r.0).wrapping_add(4));
                let cut = |m: &std::collections::BTreeMap<(u32, bool), u8>| m.iter().filter(|(k, _)| !near(k.0)).map(|(k, v)| (*k, *v)).collect::<Vec<_>>();
                (near(r.0) && near(q.0) && r.0.wrapping_sub(q.0).wrapping_add(2) <= 4) && cut(&x.0) == cut(&y.0)
            }
            _ => false,
        })
}

struct Ev {
    w: bool,
    addr: u32,
    val: u8,
    tag: u8,
    wild: bool,
}

fn expand(log: &[Acc], wild: &dyn Fn(&Acc, u32, u8) -> bool) -> Vec<Ev> {
    let mut v = Vec::with_capacity(log.len() * 4);
    for a in log {
        if !a.ok {
            continue;
        }
        for i in 0..a.size as u32 {
            let val = (a.val >> (8 * (a.size as u32 - 1 - i))) as u8;
            let addr = a.addr.wrapping_add(i);
            v.push(Ev { w: a.w, addr, val, tag: a.tag, wild: wild(a, addr, val) });
        }
    }
    v
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
enum LogDiff {
    Set,
    Val,
    Order,
}

fn same_logs(e: &[Acc], a: &[Acc]) -> bool {
    e.len() == a.len() && e.iter().zip(a).all(|(x, y)| x.w == y.w && x.addr == y.addr && x.size == y.size && x.val == y.val && x.ok == y.ok)
}

/// Compares a predicted and an observed access sequence byte by byte. Reads of different operands may commute;
/// everything else about them is fixed. Returns the difference, whether it lies in an exception frame, and a text.
fn cmp_logs(exp: &[Acc], act: &[Acc], wild: &dyn Fn(&Acc, u32, u8) -> bool) -> Option<(LogDiff, bool, String)> {
    if same_logs(exp, act) {
        return None;
    }
    let e = expand(exp, wild);
    let a = expand(act, &|_, _, _| false);
    let mut pe: HashMap<u32, Vec<usize>> = HashMap::new();
    let mut pa: HashMap<u32, Vec<usize>> = HashMap::new();
    for (i, x) in e.iter().enumerate() {
        pe.entry(x.addr).or_default().push(i);
    }
    for (i, x) in a.iter().enumerate() {
        pa.entry(x.addr).or_default().push(i);
    }
    let mut keys: Vec<u32> = pe.keys().chain(pa.keys()).copied().collect();
    keys.sort_unstable();
    keys.dedup();
    let none: Vec<usize> = Vec::new();
    for k in &keys {
        let x = pe.get(k).unwrap_or(&none);
        let y = pa.get(k).unwrap_or(&none);
        let xw = x.iter().filter(|i| e[**i].w).count();
        let yw = y.iter().filter(|i| a[**i].w).count();
        if x.len() != y.len() || xw != yw {
            let frame = x.iter().any(|i| e[*i].tag == 0) || (x.is_empty() && e.iter().any(|v| v.tag == 0 && v.w));
            return Some((LogDiff::Set, frame, format!("address {:08x}: expected {} reads {} writes, observed {} reads {} writes", k, x.len() - xw, xw, y.len() - yw, yw)));
        }
        for (i, j) in x.iter().zip(y) {
            if e[*i].w != a[*j].w {
                return Some((LogDiff::Order, e[*i].tag == 0, format!("address {k:08x}: reads and writes in the wrong order")));
            }
            if e[*i].val != a[*j].val && !e[*i].wild {
                return Some((LogDiff::Val, e[*i].tag == 0, format!("address {:08x}: expected {} {:02x}, observed {:02x}", k, if e[*i].w { "write of" } else { "read of" }, e[*i].val, a[*j].val)));
            }
        }
    }
    let sub = |f: &dyn Fn(&Ev) -> bool| -> bool {
        let mut it = a.iter();
        e.iter().filter(|x| f(x)).all(|x| it.by_ref().any(|y| y.w == x.w && y.addr == x.addr))
    };
    if !sub(&|x| x.w && x.tag != 0) {
        return Some((LogDiff::Order, false, "writes in the wrong order".into()));
    }
    for t in 1..=3 {
        if !sub(&|x| !x.w && x.tag == t) {
            return Some((LogDiff::Order, false, if t == 1 { "instruction words fetched in the wrong order".into() } else { "operand reads in the wrong order".into() }));
        }
    }
    None
}

pub fn image(mem: &mut Mem, scc: bool, seed: u64) {
    let mut r = Rng::new(seed);
    match mem.map {
        Map::Std => {
            for a in mem.data.chunks_mut(8) {
                let v = r.u64().to_be_bytes();
                let n = a.len();
                a.copy_from_slice(&v[..n]);
            }
            for b in mem.dev_reads.iter_mut() {
                *b = 0;
            }
        }
        Map::Lin(_) => {
            for a in mem.data.iter_mut() {
                *a = r.u8();
            }
        }
    }
    // Vector table and handlers.
    mem.poke32(0, 0x3F00 - if matches!(mem.map, Map::Lin(_)) { 0x2000 } else { 0 });
    mem.poke32(4, 0x1000 + 2 * r.below(0x80));
    for v in 2..256u32 {
        mem.poke32(4 * v, 0x400 + 12 * v);
    }
    for v in 0..256u32 {
        let a = 0x400 + 12 * v;
        let mut w: Vec<u16> = Vec::new();
        match r.below(8) {
            0 => {}
            1 => w.push(0x7000 | r.u16() & 0x0EFF),
            2 => w.extend([0x003C, r.u16() & 0xFF]),
            3 => w.push(0xD080 | r.u16() & 0x0E07),
            _ => w.push(0x4E71),
        }
        if !scc && (v == 2 || v == 3) {
            w.push(0x508F);
        }
        w.push(0x4E73);
        for (i, x) in w.iter().enumerate() {
            mem.poke16(a + 2 * i as u32, *x);
        }
    }
}

fn hash_log(log: &[Acc]) -> u64 {
    log.iter().fold(1, |h, a| mix(h ^ (a.addr as u64) << 32 ^ (a.val as u64) ^ (a.w as u64) << 20 ^ (a.size as u64) << 24 ^ (a.ok as u64) << 28))
}
fn hash_regs(r: &Registers, stop: bool) -> u64 {
    let mut s = St::new();
    from_regs(r, &mut s);
    let mut h = stop as u64;
    for v in s.d.iter().chain(&s.a).chain(&[s.usp, s.ssp, s.pc, s.sr as u32]) {
        h = mix(h ^ *v as u64);
    }
    h
}

pub fn regs_diff(a: &Registers, b: &Registers) -> Option<String> {
    let (mut x, mut y) = (St::new(), St::new());
    from_regs(a, &mut x);
    from_regs(b, &mut y);
    for i in 0..8 {
        if x.d[i] != y.d[i] {
            return Some(format!("d{} {:08x} / {:08x}", i, x.d[i], y.d[i]));
        }
    }
    for i in 0..7 {
        if x.a[i] != y.a[i] {
            return Some(format!("a{} {:08x} / {:08x}", i, x.a[i], y.a[i]));
        }
    }
    for (n, p, q) in [("usp", x.usp, y.usp), ("ssp", x.ssp, y.ssp), ("pc", x.pc, y.pc), ("sr", x.sr as u32, y.sr as u32)] {
        if p != q {
            return Some(format!("{n} {p:08x} / {q:08x}"));
        }
    }
    None
}

/// Reads memory without side effects, for disassembling what was executed.
struct Peek<'a>(&'a Mem);
impl MemoryAccess for Peek<'_> {
    fn get_byte(&mut self, a: u32) -> Option<u8> {
        self.0.readable(a).then(|| self.0.peek(a))
    }
    fn get_word(&mut self, a: u32) -> Option<u16> {
        (self.0.readable(a) && self.0.readable(a.wrapping_add(1))).then(|| self.0.peek16(a))
    }
    fn set_byte(&mut self, _: u32, _: u8) -> Option<()> {
        None
    }
    fn set_word(&mut self, _: u32, _: u16) -> Option<()> {
        None
    }
    fn reset_instruction(&mut self) {}
}

impl World {
    pub fn new(case: &Case) -> World {
        let mut mem = Mem::new(case.map);
        image(&mut mem, case.scc, case.image);
        let bus = Bus::new(mem.clone());
        let core = Rust::new(Cpu { scc: case.scc, own: case.own }, false);
        let mut st = St::new();
        from_regs(&core.regs(), &mut st);
        let mut w = World {
            case: Case { ops: Vec::new(), ..case.clone() },
            scc: case.scc,
            torn: case.torn,
            core,
            bus,
            st,
            mem,
            divs: Vec::new(),
            ended: false,
            last: None,
            last_out: None,
            kf: 0,
            cov: Cov::default(),
            twins: Vec::new(),
            noise: None,
            hashes: Vec::new(),
            since_fault: 99,
            since_failed: 99,
            since_wake: 99,
            since_reset: 99,
            was_stopped_req: false,
            len: 64,
            prog: None,
            trace: std::env::var_os("SIM_TRACE").is_some(),
            bare: false,
            capture: None,
            prev_sig: 0,
            heap: Vec::new(),
            left: model::Left::At,
            decoded: None,
        };
        w.make_twins(false);
        w
    }

    fn cpu(&self) -> Cpu {
        Cpu { scc: self.scc, own: self.case.own }
    }

    fn cpu_name(&self) -> &'static str {
        match (self.case.own, self.scc) {
            (false, false) => "MC68000",
            (false, true) => "SCC68070",
            (true, false) => "own CPU, MC68000 frames",
            (true, true) => "own CPU, SCC68070 frames",
        }
    }

    fn make_twins(&mut self, reset: bool) {
        let (scc, cpu, t) = (self.scc, self.cpu(), self.case.twin);
        for x in std::mem::take(&mut self.twins) {
            if let Twin::Ffi(Some(c), _) = x {
                c.delete();
            }
        }
        match t {
            TwinMode::None | TwinMode::Prog => {}
            TwinMode::Heap => self.make_heap(reset),
            TwinMode::Dis => self.twins.push(Twin::Dis(Rust::new(cpu, reset), Box::new(self.bus.clone()))),
            TwinMode::Det => self.twins.push(Twin::Same(Rust::new(cpu, reset), Box::new(self.bus.clone()))),
            TwinMode::Ffi => {
                let in_c = self.case.image & 1 == 1;
                if in_c && cfg!(chost) {
                    self.cov.hit("core in the hands of a host program in C");
                }
                let core = if in_c { FfiCore::new_c(scc, reset) } else { FfiCore::new(scc, reset) };
                self.twins.push(Twin::Ffi(Some(core), ffi_host(self.bus.clone(), self.torn)))
            }
            TwinMode::Slice => {
                let d = &self.bus.mem.data;
                self.twins.push(Twin::S8(Rust::new(cpu, reset), d.clone()));
                if d.len() % 2 == 0 {
                    let w = d.chunks(2).map(|b| u16::from_be_bytes([b[0], b[1]])).collect();
                    self.twins.push(Twin::S16(Rust::new(cpu, reset), w));
                }
            }
        }
    }

    pub fn div(&mut self, mask: u32, kind: &'static str, msg: String) {
        if self.divs.len() < 64 {
            self.divs.push(Div { mask, kind, msg });
        }
    }

    fn set_twins(&mut self, r: &Registers) {
        for t in self.heap.iter_mut() {
            t.set_regs(*r);
        }
        for (i, t) in self.twins.iter_mut().enumerate() {
            match t {
                Twin::Dis(c, _) | Twin::Same(c, _) | Twin::S8(c, _) | Twin::S16(c, _) => c.set_regs(*r),
                Twin::Ffi(Some(c), _) => {
                    if (r.pc.0 >> 1) as usize & 1 == i & 1 {
                        c.set_regs(*r)
                    } else {
                        c.set_regs_live(*r)
                    }
                }
                _ => {}
            }
        }
    }

    pub fn apply(&mut self, op: &Op) {
        self.bus.resets = 0;
        match op {
            Op::Reg(i, v) => {
                let i = *i as usize;
                match i {
                    0..=7 => self.st.d[i] = *v,
                    8..=14 => self.st.a[i - 8] = *v,
                    15 => self.st.usp = *v,
                    16 => self.st.ssp = *v,
                    17 => self.st.pc = *v,
                    _ => self.st.sr = *v as u16 & model::SR_MASK,
                }
                let r = to_regs(&self.st);
                self.core.set_regs(r);
                self.set_twins(&r);
            }
            Op::Mem(a, b) => {
                self.decoded = None;
                self.cov.hit("host memory write (load or DMA)");
                for (i, v) in b.iter().enumerate() {
                    let a = a.wrapping_add(i as u32);
                    self.mem.poke(a, *v);
                    self.bus.mem.poke(a, *v);
                    for t in self.heap.iter_mut() {
                        t.mem().poke(a, *v);
                    }
                    for t in self.twins.iter_mut() {
                        match t {
                            Twin::Dis(_, b) | Twin::Same(_, b) => b.mem.poke(a, *v),
                            Twin::Ffi(_, h) => h.bus.mem.poke(a, *v),
                            Twin::S8(_, d) => {
                                if let Some(x) = d.get_mut(a as usize) {
                                    *x = *v
                                }
                            }
                            Twin::S16(_, d) => {
                                if let Some(x) = d.get_mut(a as usize / 2) {
                                    *x = if a & 1 == 0 { *x & 0xFF | (*v as u16) << 8 } else { *x & 0xFF00 | *v as u16 }
                                }
                            }
                        }
                    }
                }
            }
            Op::Fault(f) => {
                if self.case.twin != TwinMode::Slice {
                    self.mem.faults.push(*f);
                    self.sync_faults();
                }
            }
            Op::Unfault => {
                self.mem.faults.clear();
                self.sync_faults();
            }
            Op::Exc(v) => self.request(*v),
            Op::Again(v, n) => {
                for _ in 0..*n {
                    self.request(*v);
                }
            }
            Op::Step(a) => {
                if !self.ended {
                    self.step(*a);
                }
            }
            Op::Storm(v, n, a) => {
                self.cov.hit("the same step repeated from the same registers up to thousands of times");
                let was = self.st.clone();
                for _ in 0..*n {
                    if self.ended || !self.divs.is_empty() {
                        break;
                    }
                    self.bus.resets = 0;
                    let s = &mut self.st;
                    (s.d, s.a, s.usp, s.ssp, s.pc, s.sr) = (was.d, was.a, was.usp, was.ssp, was.pc, was.sr);
                    let r = to_regs(&self.st);
                    self.core.set_regs(r);
                    self.set_twins(&r);
                    if *v < 256 {
                        self.request(*v as u8);
                    }
                    self.step(*a);
                }
            }
            Op::Cycle(n) => self.run_loop(0, *n as usize),
            Op::Until(n) => self.run_loop(1, *n as usize),
            Op::Loop => self.run_loop(2, usize::MAX),
            Op::Snap => {
                if self.case.twin == TwinMode::Heap && !self.ended {
                    self.cov.hit("snapshot taken");
                    for i in 0..self.heap.len() {
                        let e = self.heap[i].clone_over();
                        self.heap_div(e);
                    }
                }
                if self.case.twin == TwinMode::Det && !self.ended {
                    self.cov.hit("snapshot taken");
                    self.twins = vec![Twin::Same(self.core.clone(), Box::new(self.bus.clone()))];
                }
            }
            Op::Next(w) => self.next(*w),
            Op::New(reset) => {
                self.cov.hit(if *reset { "new core (power on)" } else { "new core without reset" });
                self.core = Rust::new(self.cpu(), *reset);
                self.st = St::new();
                from_regs(&self.core.regs(), &mut self.st);
                if *reset {
                    self.st.pend.set(0);
                }
                self.ended = false;
                self.since_fault = 99;
                self.since_failed = 99;
                self.since_wake = 99;
                self.since_reset = 99;
                self.was_stopped_req = false;
                self.make_twins(*reset);
                if self.core.stop() {
                    self.div(p(8) | p(7), "new-stopped", "a new core is stopped".into());
                }
            }
            Op::Decode(a, n) => self.decode(*a, *n),
            Op::Asm(a, b, s) => self.assemble(*a, b, *s),
            Op::Noise(s) => self.noise(*s),
            Op::Acc(a, v) => self.slice_access(*a, *v),
            Op::Tiny(l, a, v) => self.tiny(*l, *a, *v),
            Op::Big(i, a, v) => self.big(*i, *a, *v),
            Op::Mark => self.mark(),
            Op::Drain => self.drain(),
            Op::Len(n) => self.len = *n as usize,
        }
    }

    fn sync_faults(&mut self) {
        self.bus.mem.faults = self.mem.faults.clone();
        for t in self.heap.iter_mut() {
            t.mem().faults = self.mem.faults.clone();
        }
        for t in self.twins.iter_mut() {
            match t {
                Twin::Dis(_, b) | Twin::Same(_, b) => b.mem.faults = self.mem.faults.clone(),
                Twin::Ffi(_, h) => h.bus.mem.faults = self.mem.faults.clone(),
                _ => {}
            }
        }
    }

    fn request(&mut self, v: u8) {
        if self.ended {
            return;
        }
        if self.case.twin == TwinMode::Ffi && vector_enum(v).is_none() {
            return;
        }
        self.cov.hit(match v {
            0 => "host request: reset",
            2 | 3 => "host request: access or address error",
            25..=31 => "host request: autovector interrupt",
            57..=63 => "host request: on-chip interrupt",
            64..=255 => "host request: user interrupt vector",
            24 => "host request: spurious interrupt",
            _ => "host request: trap, trace or other vector",
        });
        let was = self.st.stop;
        let known = self.st.request(v);
        if let Err(e) = guard(|| self.core.exception(v)) {
            self.div(p(5) | p(17), "request-panic", format!("requesting vector {v} panicked: {e:?}"));
            self.ended = true;
            return;
        }
        if was {
            self.was_stopped_req = true;
            self.since_wake = 0;
            if known && self.core.stop() != self.st.stop && !self.bare {
                let m = p(7) | if v == 0 { p(8) } else { 0 } | if model::is_irq(v) { p(4) } else { 0 };
                self.div(m, "wake", format!("vector {} requested while stopped with SR {:04x}: stop flag is {}", v, self.st.sr, self.core.stop()));
            }
        }
        self.st.stop = self.core.stop();
        if let Some(pr) = self.prog.as_mut() {
            if !pr.pend[v as usize] {
                pr.pend[v as usize] = true;
                pr.want[v as usize] += 1;
            }
        }
        for i in 0..self.heap.len() {
            let e = self.heap[i].exception(v);
            self.heap_div(e);
        }
        for t in self.twins.iter_mut() {
            match t {
                Twin::Dis(c, _) | Twin::Same(c, _) | Twin::S8(c, _) | Twin::S16(c, _) => c.exception(v),
                Twin::Ffi(Some(c), _) => c.exception(vector_enum(v).unwrap()),
                _ => {}
            }
        }
    }

    /// Mirrors the observed accesses into the shadow memory.
    fn mirror(&mut self) {
        for a in &self.bus.log {
            if !a.ok {
                continue;
            }
            for i in 0..a.size as u32 {
                let ad = a.addr.wrapping_add(i);
                if a.w {
                    self.mem.poke(ad, (a.val >> (8 * (a.size as u32 - 1 - i))) as u8);
                } else if let Some(Cell::Dev(o)) = self.mem.cell(ad) {
                    self.mem.dev_reads[o] = self.mem.dev_reads[o].wrapping_add(1);
                }
            }
        }
    }

    pub fn predict(&self, fill: Option<u8>) -> Out {
        model::step(&self.st, &self.mem, self.torn, self.cpu(), fill, &[], self.left)
    }

    pub fn step(&mut self, api: Api) -> Option<Res> {
        let pre = self.st.clone();
        let r = self.core.step(api, &mut self.bus, self.torn);
        self.cov.steps += 1;
        let act_log = std::mem::take(&mut self.bus.log);
        let at0 = pre.pc == 0 && !pre.pend.has(0);
        let mut hint = seen_vectors(&act_log, at0);
        hint.retain(|v| *v != 0);
        let mut out = model::step(&pre, &self.mem, self.torn, self.cpu(), None, &hint, self.left);
        if out.taken.len() > 1 && (!out.failed.is_empty() || out.dead || r.is_err()) && (!same_shape(&out.log, &act_log) || out.dead != r.is_err()) {
            // Some stacking failed and left no vector fetch to tell the order by: look for an allowed order that fits.
            let all: Vec<Vec<u8>> = std::iter::once(model::stack_order(&out.taken, &[])).chain(orders(&out.taken)).collect();
            let rest = [model::Left::At, model::Left::Before, model::Left::Whole].into_iter().filter(|l| *l != self.left);
            'find: for left in std::iter::once(self.left).chain(rest).collect::<Vec<_>>() {
                for fits in [same_shape, same_bytes] {
                    for o in &all {
                        let x = model::step(&pre, &self.mem, self.torn, self.cpu(), None, o, left);
                        if x.dead == r.is_err() && fits(&x.log, &act_log) {
                            if left != self.left {
                                self.cov.hit("stack pointer left elsewhere by a failed stacking");
                            }
                            out = x;
                            self.left = left;
                            break 'find;
                        }
                    }
                }
            }
        }
        let regs = self.core.regs();
        if self.trace {
            let f = |l: &[Acc]| l.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ");
            eprintln!("{api:?} {:?} at {:08x} SR {:04x} op {:04x?} taken {:?} failed {:?} vec {:?} lenient {}\n  model {}\n  core  {}", out.k, pre.pc, pre.sr, out.op, out.taken, out.failed, out.vec, out.lenient, f(&out.log), f(&act_log));
        }
        // Once the run has ended the model no longer follows the core (a run loop may still be stepping to its own end).
        let ok = if self.bare || self.ended { r.is_ok() } else { self.judge(api, &pre, &out, &r, &act_log, &regs) };
        if let (Some((addr, n, text)), Ok(Res { text: Some((a, t)), .. })) = (self.decoded.take(), &r) {
            // The instruction decoded just now is the one executed, and nothing was stacked over it.
            if out.instr && out.op.is_some() && out.ipc == addr && out.vec != Some(2) && !out.log[..out.exc_log].iter().any(|x| x.w && addr.wrapping_sub(x.addr).wrapping_add(2 * n) < 2 * n + 4) {
                self.cov.hit("decoded text compared with the step's");
                if *a != addr || *t != text {
                    self.div(p(24), "decode", format!("decoding at {addr:08x} gave {text:?}, the disassembling step {a:08x} {t:?}"));
                }
            }
        }
        self.account(api, &pre, &out);
        if self.case.prop == 22 && r.is_ok() {
            self.converted(&out, &regs);
        }
        if self.case.twin == TwinMode::Heap {
            let (panics, len) = (r.is_err(), self.len);
            for i in 0..self.heap.len() {
                let e = self.heap[i].step(api, len, panics);
                self.heap_div(e);
                if !panics && !self.heap[i].follows(&regs, self.core.stop()) {
                    self.cov.hit("accounted duplicate lost");
                }
            }
        } else if self.case.twin != TwinMode::None {
            self.run_twins(api, &out, &r, &act_log, &regs);
        }
        self.bus.log = act_log;
        self.mirror();
        if let Some(c) = self.capture.as_mut() {
            c.extend_from_slice(&self.bus.log);
        }
        // Follow the core.
        let mut next = out.st.clone();
        from_regs(&regs, &mut next);
        next.stop = self.core.stop();
        self.st = next;
        if !ok {
            self.ended = true;
        }
        let res = match r {
            Ok(x) => x,
            Err(_) => {
                self.ended = true;
                self.last = None;
                return None;
            }
        };
        if !self.bare {
            if res.vec.is_none() {
                // The API requested the exception itself.
                let v = self.effective_vec(&out);
                if let Some(v) = v {
                    self.st.pend.set(v);
                }
                self.cov.cycles += res.cycles as u64;
            } else {
                self.cov.cycles += res.cycles as u64;
            }
        }
        if self.prog.is_some() {
            self.prog_step(&pre, &res);
        }
        if self.case.twin == TwinMode::Det {
            let h = hash_log(&self.bus.log) ^ hash_regs(&regs, self.core.stop()) ^ mix(res.cycles as u64) ^ res.vec.flatten().unwrap_or(0) as u64;
            self.hashes.push(h);
        }
        self.last = Some(res.clone());
        self.last_out = Some(out);
        Some(res)
    }

    /// The vector a self-requesting step must have requested, given what was observed on the bus.
    fn effective_vec(&self, out: &Out) -> Option<u8> {
        match out.vec {
            Some(2) | Some(3) => {
                if self.bus.log.iter().any(|a| !a.ok) {
                    Some(2)
                } else if self.bus.log.len() < out.log.len() {
                    Some(3)
                } else {
                    out.vec
                }
            }
            v => v,
        }
    }

    fn account(&mut self, api: Api, pre: &St, out: &Out) {
        self.cov.accesses += self.bus.count as u64;
        let c = &mut self.cov;
        if pre.stop {
            c.hit("steps of a stopped core");
            return;
        }
        if out.reset {
            c.hit("resets processed");
        }
        if out.instr {
            c.instr += 1;
        }
        for v in &out.taken {
            c.hit(match v {
                25..=31 | 57..=63 => "interrupts taken",
                64..=255 | 24 => "user or spurious interrupts taken",
                2 | 3 => "access or address errors taken",
                9 => "trace exceptions taken",
                _ => "other exceptions taken",
            });
        }
        if out.taken.len() > 1 {
            c.hit("boundaries with several exceptions taken");
        }
        if out.dead {
            c.hit("double faults and dead resets");
        }
        let mut fk = 0u64;
        for (i, a) in out.log.iter().enumerate() {
            if !a.ok {
                let k = if i < out.exc_log {
                    if a.w {
                        ("fault: exception stacking refused", 1)
                    } else {
                        ("fault: vector fetch refused", 2)
                    }
                } else if a.tag == 1 {
                    if out.op.is_none() {
                        ("fault: opcode fetch refused", 3)
                    } else {
                        ("fault: extension word refused", 4)
                    }
                } else if a.w {
                    ("fault: operand write or push refused", 5)
                } else {
                    ("fault: operand read or pop refused", 6)
                };
                fk = k.1;
                c.hit(k.0);
                if i > out.exc_log && a.size == 2 && out.log[i - 1].addr.wrapping_add(2) == a.addr && out.log[i - 1].tag == a.tag && a.tag > 1 {
                    c.hit("fault: second half of a transfer refused");
                }
            }
        }
        if out.odd {
            c.hit(if !out.failed.is_empty() {
                "fault: misaligned exception stack or vector"
            } else if out.op.is_none() {
                "fault: odd program counter"
            } else {
                "fault: misaligned operand or stack"
            });
        }
        for (v, _) in &out.failed {
            let _ = v;
            c.hit("exceptions whose stacking failed");
        }
        let op = out.op.unwrap_or(0) as u64;
        let sig = out.k as u64
            | (op & 0x38) << 8
            | (op & 0xC0) << 12
            | (out.vec.map_or(255, |v| v as u64)) << 24
            | (api as u64) << 32
            | (self.scc as u64) << 34
            | (self.torn as u64) << 35
            | ((pre.sr >> 13 & 1) as u64) << 36
            | ((pre.sr >> 15) as u64) << 37
            | fk << 38
            | (out.odd as u64) << 42
            | (out.reset as u64) << 43
            | (out.taken.len().min(3) as u64) << 44
            | (out.failed.len().min(1) as u64) << 46
            | (out.taken.iter().fold(0, |a, v| a | 1 << model::class(*v)) as u64) << 47;
        let h = mix(sig);
        c.distinct.insert(h);
        if c.pairs.len() < 200_000 {
            c.pairs.insert(mix(self.prev_sig ^ h));
        }
        self.prev_sig = h.rotate_left(7);
    }

    /// Compares one step with its prediction. Returns false when the world cannot go on.
    fn judge(&mut self, api: Api, pre: &St, out: &Out, r: &Result<Res, Fail>, log: &[Acc], regs: &Registers) -> bool {
        self.since_fault = self.since_fault.saturating_add(1);
        self.since_failed = self.since_failed.saturating_add(1);
        self.since_wake = self.since_wake.saturating_add(1);
        self.since_reset = self.since_reset.saturating_add(1);
        let (sf, sfl, sw, srs) = (self.since_fault, self.since_failed, self.since_wake, self.since_reset);
        let act_ref = log.iter().any(|a| !a.ok);
        let fault = out.refused || act_ref;
        let odd = out.odd || self.bus.odd.is_some();
        if fault || odd {
            self.since_fault = 0;
        }
        if !out.failed.is_empty() {
            self.since_failed = 0;
        }
        if out.reset {
            self.since_reset = 0;
        }
        let user = out.sr0 & model::S == 0;
        let k = out.k;
        let mut ctx = 0;
        if out.reset || srs == 1 {
            ctx |= p(8);
        }
        if pre.stop || k == K::Stop && out.instr || sw <= 1 {
            ctx |= p(7);
        }
        if fault || sf <= 1 {
            ctx |= p(2);
        }
        if odd {
            ctx |= p(3);
        }
        if !out.failed.is_empty() {
            ctx |= p(6) | p(2);
        }
        if out.instr && out.op.is_some() {
            if k == K::Rte {
                ctx |= p(9);
            }
            if user && (model::privileged(k)) {
                ctx |= p(10);
            }
            if matches!(k, K::Illegal | K::Unknown | K::LineA | K::LineF) {
                ctx |= p(17);
            }
            if out.sr0 & model::T != 0 && (k == K::Rte || model::privileged(k)) {
                ctx |= p(11);
            }
        }
        let plain = !fault && !odd && out.taken.is_empty() && !out.reset && !pre.stop && out.instr;
        let p1 = if plain { p(1) } else { 0 };
        let taken_mask = if out.taken.is_empty() { 0 } else { p(9) };
        // Instructions that do nothing else than convert.
        let sr_move = matches!(k, K::AndiSr | K::OriSr | K::EoriSr | K::AndiCcr | K::OriCcr | K::EoriCcr | K::MoveToSr | K::MoveToCcr | K::Rte | K::Rtr | K::Stop);
        let p22 = if plain && sr_move { p(22) } else { 0 };
        let irq_taken = out.taken.iter().any(|v| model::is_irq(*v));
        let at = format!("{} at {:08x} op {} ({:?}) api {:?}", self.cpu_name(), out.ipc, out.op.map_or("-".into(), |o| format!("{o:04x}")), k, api);

        // 1. No crash, no hang.
        let res = match r {
            Err(f) => {
                if out.dead {
                    if let Fail::Panic(m) = f {
                        let l = m.to_lowercase();
                        if !["access", "address", "exception", "fault", "reset", "vector", "ssp", "initial", "halt", "bus"].iter().any(|w| l.contains(w)) {
                            self.div(p(2) | p(17) | if out.reset { p(8) } else { 0 }, "panic", format!("the panic of a dead core does not say what happened: {m}; {at}"));
                        }
                    }
                    return false;
                }
                let what = match f {
                    Fail::Runaway => "step does not end".to_string(),
                    Fail::Panic(m) => format!("step panicked: {m}"),
                };
                self.div(p(17) | ctx | taken_mask, "panic", format!("{what}; {at}"));
                return false;
            }
            Ok(r) => r,
        };
        if out.dead {
            let what = if out.reset { "an unreadable reset vector" } else { "an access or address error while processing one" };
            self.div(p(2) | if out.reset { p(8) } else { 0 }, "not halted", format!("the core went on after {what}: exceptions taken {:?}, accesses {}; {at}", out.taken, log.len()));
            return false;
        }
        // 2. Alignment of everything put on the bus.
        if let Some(a) = self.bus.odd {
            self.div(p(3) | ctx, "odd-access", format!("memory was asked for {a} (misaligned); {at}"));
        }
        // 3. Stopped core.
        if pre.stop {
            if res.cycles != 0 || !log.is_empty() || res.vec.flatten().is_some() || regs_diff(&to_regs(pre), regs).is_some() || !self.core.stop() {
                self.div(p(7), "stopped", format!("a stopped core did something: cycles {} accesses {} vector {:?} stop {}", res.cycles, log.len(), res.vec, self.core.stop()));
            }
            return true;
        }
        // 4. Which exceptions were taken.
        let at0 = pre.pc == 0 && !pre.pend.has(0);
        let ev = seen_vectors(&out.log[..out.exc_log], at0);
        let mut av = seen_vectors(log, at0);
        av.truncate(ev.len().max(av.len()));
        let (mut es, mut as_) = (ev.clone(), av.clone());
        es.sort_unstable();
        as_.sort_unstable();
        if es != as_ {
            let mut m = p(5) | ctx;
            let diff: Vec<u8> = (0..=255u8).filter(|v| es.iter().filter(|x| *x == v).count() != as_.iter().filter(|x| *x == v).count()).collect();
            for v in &diff {
                m |= match v {
                    0 => p(8),
                    2 => p(2),
                    3 => p(3),
                    4 | 10 | 11 => p(17) | p(1),
                    8 => p(10) | p(1),
                    9 => p(11),
                    25..=31 | 57..=63 => p(4),
                    5..=7 | 32..=47 => p(1),
                    _ => 0,
                };
                if sfl <= 1 {
                    m |= p(6);
                }
            }
            if self.was_stopped_req || sw < 4 {
                m |= p(7);
            }
            self.div(m, "exception-set", format!("exceptions taken: expected {ev:?}, observed {av:?}; {at} SR {:04x}", pre.sr));
            return true;
        }
        if !ev.is_empty() {
            self.was_stopped_req = false;
        }
        if ev != av {
            self.div(p(6), "exception-order", format!("exceptions stacked in the order {av:?}, expected {ev:?}; {at}"));
            return true;
        }
        let mut got = pre.clone();
        from_regs(regs, &mut got);

        // 5. Failed exception processing: nothing else may happen in this step.
        if !out.failed.is_empty() {
            let m = p(6) | ctx | p(5);
            let lo = out.hist.iter().filter(|h| h.0 == 8).map(|h| pre.ssp.wrapping_sub(h.1)).max().unwrap_or(0).max(pre.ssp.wrapping_sub(out.st.ssp));
            let lo = lo + 64 * out.failed.len() as u32;
            for a in log {
                let bad = if a.w { pre.ssp.wrapping_sub(a.addr) > lo } else { !out.taken.iter().any(|v| a.addr & !3 == *v as u32 * 4) };
                if bad {
                    self.div(m, "instruction-after-failed-exception", format!("vector {:?} could not be stacked, yet {a} was made before the replacing exception; {at}", out.failed));
                    return true;
                }
            }
            if res.vec.flatten().is_some() {
                self.div(m, "vector", format!("vector {:?} reported by a step that only failed to stack {:?}", res.vec, out.failed));
            }
            if got.d != pre.d || got.a != pre.a || got.usp != pre.usp {
                self.div(m | p(9), "registers", format!("registers changed while stacking {:?}", out.failed));
            }
            if got.sr != out.st.sr {
                self.div(m | p(9) | p(4), "status", format!("SR {:04x}, expected {:04x} after failing to stack {:?}", got.sr, out.st.sr, out.failed));
            }
            if self.core.stop() {
                self.div(p(7), "stop", "stopped by exception processing".into());
            }
            // What a stacking cut short costs is open; the exceptions that were completed cost their time.
            if out.exc_cycles_known && (res.cycles < out.cyc_min || res.cycles > out.cyc_min + 500 * out.failed.len()) {
                self.div(p(18), "cycles", format!("{} cycles reported, exceptions {:?} alone take {} ({:?} could not be stacked); {at}", res.cycles, out.taken, out.cyc_min, out.failed));
            }
            return true;
        }

        // 6. Relaxed comparison of instructions cut short.
        let vec = out.vec;
        if out.refused && out.instr || out.odd {
            self.judge_cut(api, out, res, log, &got, ctx, &at);
            return !(out.lenient && res.vec.is_none());
        }
        if out.lenient {
            if res.vec == Some(Some(3)) && !act_ref {
                return true;
            }
            if res.vec.is_none() {
                return false;
            }
        }

        // 7. Strict comparison.
        let e = &out.st;
        if let Some(av) = res.vec {
            if av != vec {
                let mut m = ctx | p1;
                for v in [av, vec].iter().flatten() {
                    m |= match v {
                        2 => p(2) | p(17) * 0,
                        3 => p(3),
                        4 | 10 | 11 => p(17),
                        8 => p(10),
                        9 => p(11),
                        _ => 0,
                    };
                }
                if av.is_none() || vec.is_none() {
                    m |= p(5);
                }
                if matches!(vec, Some(9)) || matches!(av, Some(9)) {
                    m &= !p1;
                }
                self.div(m, "vector", format!("vector {av:?}, expected {vec:?}; {at}"));
                return true;
            }
        }
        let free = out.free_d;
        for i in 0..8 {
            let mask = match free {
                Some((r, m)) if r as usize == i => !m,
                _ => !0,
            };
            if (got.d[i] ^ e.d[i]) & mask != 0 {
                self.div(ctx | p1 | taken_mask, "register", format!("d{} is {:08x}, expected {:08x}; {at}", i, got.d[i], e.d[i]));
                break;
            }
        }
        for i in 0..7 {
            if got.a[i] != e.a[i] {
                self.div(ctx | p1 | taken_mask, "register", format!("a{} is {:08x}, expected {:08x}; {at}", i, got.a[i], e.a[i]));
                break;
            }
        }
        let rte14 = vec == Some(14);
        if got.usp != e.usp {
            self.div(ctx | p1 | taken_mask | if !user { p(10) } else { 0 }, "stack pointer", format!("usp is {:08x}, expected {:08x}; {at}", got.usp, e.usp));
        }
        if got.ssp != e.ssp && !(rte14 && (got.ssp == out.mid.ssp || out.hist.iter().any(|h| h.0 == 8 && h.1 == got.ssp))) {
            self.div(ctx | p1 | taken_mask | if user { p(10) } else { 0 }, "stack pointer", format!("ssp is {:08x}, expected {:08x}; {at}", got.ssp, e.ssp));
        }
        if (got.sr ^ e.sr) & model::CCR & !out.und != 0 {
            self.div(ctx | p1 | p22 | taken_mask, "condition codes", format!("ccr is {:02x}, expected {:02x}; {at}", got.sr & 31, e.sr & 31));
        }
        let sysd = (got.sr ^ e.sr) & !model::CCR;
        if sysd != 0 {
            let mut m = ctx | p1 | taken_mask;
            if sysd & 0x0700 != 0 && irq_taken {
                m |= p(4);
            }
            if sysd & 0x8000 != 0 {
                m |= p(11);
            }
            if sysd & 0x2000 != 0 || user {
                m |= p(10);
            }
            if irq_taken {
                m |= p(4);
            }
            self.div(m | p22, "status", format!("sr is {:04x}, expected {:04x}; {at}", got.sr, e.sr));
        }
        if got.pc != e.pc {
            if matches!(vec, Some(4 | 8 | 10 | 11)) && got.pc == out.ipc {
            } else if rte14 && (got.pc == out.ipc || out.pch.contains(&got.pc) || got.pc == out.end_pc) {
            } else {
                let m = ctx | p1 | taken_mask | if matches!(vec, Some(4 | 8 | 10 | 11 | 5..=7 | 9 | 32..=47)) { p(9) } else { 0 } | if e.pc & 1 != 0 && got.pc & 1 == 0 { p(3) } else { 0 };
                self.div(m, "pc", format!("pc is {:08x}, expected {:08x}; {at}", got.pc, e.pc));
            }
        } else if matches!(vec, Some(4 | 8 | 10 | 11)) && e.pc != out.ipc {
            self.kf += (self.case.prop != 21) as u64;
        }
        let exp_stop = e.stop;
        if self.core.stop() != exp_stop {
            self.div(p(7) | ctx, "stop", format!("stop flag is {}, expected {}; {at}", self.core.stop(), exp_stop));
        }
        let err23 = pre.pend.has(2) || pre.pend.has(3);
        let irunk = !pre.ir_known && err23;
        let fm = out.free_m;
        let wild = |a: &Acc, addr: u32, val: u8| a.w && (fm == Some(addr) && a.tag > 1 || irunk && a.tag == 0 && val == 0xFF);
        if let Some((d, frame, msg)) = cmp_logs(&out.log, log, &wild) {
            let mut m = ctx;
            match d {
                LogDiff::Set | LogDiff::Order => m |= p(20),
                LogDiff::Val => {}
            }
            if d != LogDiff::Order {
                m |= p1;
            }
            if frame {
                m |= p(9);
            }
            m |= taken_mask;
            self.div(m, "bus", format!("{msg}; {at}"));
        }
        if self.bus.resets != out.resets {
            self.div(ctx | p(20) | if user { p(10) } else { 0 }, "reset line", format!("RESET notified {} times, expected {}; {at}", self.bus.resets, out.resets));
        }
        // 8. Timing.
        let c = res.cycles;
        let good = match (out.cycles, vec) {
            (Some(e), _) => c == e,
            (None, Some(5 | 6)) if out.exc_cycles_known => c == out.cyc_min || c == out.cyc_min + out.eatime,
            (None, Some(14)) => c >= out.cyc_min,
            (None, Some(_)) if out.exc_cycles_known => c == out.cyc_min,
            _ => c >= out.cyc_min,
        };
        if !good {
            self.div(p(18), "cycles", format!("{} cycles reported, expected {:?} (at least {}), exceptions {:?}; {at} {:?}", c, out.cycles, out.cyc_min, out.taken, out.log.iter().filter(|a| a.tag == 1).map(|a| a.val).collect::<Vec<_>>()));
        }
        true
    }

    /// An instruction that met a refused or misaligned access.
    fn judge_cut(&mut self, api: Api, out: &Out, res: &Res, log: &[Acc], got: &St, ctx: u32, at: &str) {
        let _ = api;
        let m = ctx | if out.refused { p(2) } else { 0 } | if out.odd { p(3) } else { 0 };
        let o = &out.mid;
        let fills = if out.op.is_some() {
            // Rerun the model with the refused data replaced: what does not depend on it would have happened.
            let mut st = o.clone();
            st.pend.clear();
            let mut mem = None;
            if out.exc_log > 0 {
                let mut mm = self.mem.clone();
                for a in &out.log[..out.exc_log] {
                    if a.w {
                        for i in 0..a.size as u32 {
                            mm.poke(a.addr.wrapping_add(i), (a.val >> (8 * (a.size as u32 - 1 - i))) as u8);
                        }
                    }
                }
                mem = Some(mm);
            }
            let mr = mem.as_ref().unwrap_or(&self.mem);
            let a = model::step(&st, mr, self.torn, self.cpu(), Some(0x00), &[], self.left);
            let b = model::step(&st, mr, self.torn, self.cpu(), Some(0xFF), &[], self.left);
            Some((a, b))
        } else {
            None
        };
        let any_odd = out.odd || fills.as_ref().is_some_and(|f| f.0.odd || f.1.odd);
        let any_ref = out.refused || fills.as_ref().is_some_and(|f| f.0.refused || f.1.refused);
        if let Some(v) = res.vec {
            let okv = match v {
                Some(2) => any_ref,
                Some(3) => any_odd,
                _ => false,
            };
            if !okv {
                self.div(m | if v == Some(9) { p(11) } else { 0 } | p(5), "vector", format!("vector {:?}, expected {:?}; {at}", v, out.vec));
                return;
            }
            let act_ref = log.iter().any(|a| !a.ok);
            if act_ref != (v == Some(2)) {
                self.div(m, "vector", format!("vector {v:?} but a refused access was {}made; {at}", if act_ref { "" } else { "not " }));
                return;
            }
        }
        // Registers: old or new, byte by byte.
        let agreed = |f: &dyn Fn(&St) -> u32| -> (Option<u32>, u32) {
            match &fills {
                None => (None, 0),
                Some((a, b)) => {
                    let (x, y) = (f(&a.st), f(&b.st));
                    // Bytes that agree.
                    let mut mask = 0u32;
                    for i in 0..4 {
                        if (x ^ y) >> (8 * i) & 255 == 0 {
                            mask |= 255 << (8 * i);
                        }
                    }
                    (Some(x), mask)
                }
            }
        };
        let okreg = |f: &dyn Fn(&St) -> u32| {
            let (n, mask) = agreed(f);
            let old = f(o);
            let g = f(got);
            (0..4).all(|i| {
                let b = 255u32 << (8 * i);
                g & b == old & b || mask & b != 0 && n.is_some_and(|n| g & b == n & b)
            })
        };
        for i in 0..8 {
            if !okreg(&|s: &St| s.d[i]) && !matches!(out.free_d, Some((r, _)) if r as usize == i) {
                self.div(m, "abandoned instruction", format!("d{} changed from {:08x} to {:08x}; {at}", i, o.d[i], got.d[i]));
            }
        }
        let hist_ok = |id: u8, v: u32| {
            out.hist.iter().any(|h| h.0 == id && h.1 == v) || fills.as_ref().is_some_and(|f| f.0.hist.iter().any(|h| h.0 == id && h.1 == v) && f.1.hist.iter().any(|h| h.0 == id && h.1 == v))
        };
        for i in 0..7 {
            if !okreg(&|s: &St| s.a[i]) && !hist_ok(i as u8, got.a[i]) {
                self.div(m, "abandoned instruction", format!("a{} changed from {:08x} to {:08x}; {at}", i, o.a[i], got.a[i]));
            }
        }
        if !okreg(&|s: &St| s.usp) && !hist_ok(7, got.usp) {
            self.div(m | p(10), "abandoned instruction", format!("usp changed from {:08x} to {:08x}; {at}", o.usp, got.usp));
        }
        if !okreg(&|s: &St| s.ssp) && !hist_ok(8, got.ssp) {
            self.div(m | p(10), "abandoned instruction", format!("ssp changed from {:08x} to {:08x}; {at}", o.ssp, got.ssp));
        }
        let und = out.und | fills.as_ref().map_or(0, |f| f.0.und | f.1.und);
        for b in 0..16 {
            let f = 1u16 << b;
            let g = got.sr & f;
            let fine = g == o.sr & f || und & f != 0 || fills.as_ref().is_some_and(|x| x.0.st.sr & f == g && x.1.st.sr & f == g);
            if !fine {
                self.div(m | if b >= 8 { p(10) } else { 0 }, "abandoned instruction", format!("sr changed from {:04x} to {:04x}; {at}", o.sr, got.sr));
                break;
            }
        }
        // Program counter.
        let hi = fills.as_ref().map_or(out.end_pc, |f| {
            let l = |x: &Out| x.end_pc.wrapping_sub(out.ipc);
            out.ipc.wrapping_add(l(out).max(l(&f.0)).max(l(&f.1)))
        });
        let span = hi.wrapping_sub(out.ipc).max(2);
        let pc_ok = got.pc.wrapping_sub(out.ipc) <= span && got.pc & 1 == out.ipc & 1
            || fills.as_ref().is_some_and(|f| f.0.st.pc == got.pc && f.1.st.pc == got.pc)
            || out.pch.contains(&got.pc);
        if !pc_ok {
            self.div(m | p(9), "abandoned instruction", format!("pc became {:08x}; {at}", got.pc));
        }
        if self.core.stop() {
            self.div(m | p(7), "stop", format!("an abandoned instruction stopped the core; {at}"));
        }
        if self.bus.resets != 0 {
            self.div(m | p(20), "reset line", format!("an abandoned instruction pulsed RESET; {at}"));
        }
        // Accesses: predicted ones only, the refused one last.
        let mut pool: Vec<&[Acc]> = vec![&out.log];
        if let Some((a, b)) = &fills {
            pool.push(&a.log);
            pool.push(&b.log);
        }
        let exc = &out.log[..out.exc_log];
        let cover = |w: bool, addr: u32, val: Option<u8>| -> bool {
            let has = |l: &[Acc], val: Option<u8>| {
                l.iter().any(|x| {
                    let off = addr.wrapping_sub(x.addr);
                    x.w == w && off < x.size as u32 && val.is_none_or(|v| (x.val >> (8 * (x.size as u32 - 1 - off))) as u8 == v)
                })
            };
            match val {
                None => pool.iter().any(|l| has(l, None)),
                Some(_) => has(exc, val) || has(&out.log, val) || pool.len() == 3 && has(pool[1], val) && has(pool[2], val),
            }
        };
        let fm = out.free_m.or(fills.as_ref().and_then(|f| f.0.free_m.or(f.1.free_m)));
        let irunk = !o.ir_known || !out.taken.is_empty();
        for (n, a) in log.iter().enumerate() {
            for i in 0..a.size as u32 {
                let addr = a.addr.wrapping_add(i);
                let val = (a.val >> (8 * (a.size as u32 - 1 - i))) as u8;
                let need = if a.w && a.ok && fm != Some(addr) && !(irunk && exc.iter().any(|x| x.w && addr.wrapping_sub(x.addr) < x.size as u32)) { Some(val) } else { None };
                if !cover(a.w, addr, need) {
                    self.div(m | p(20), "abandoned instruction", format!("unexpected access {a}; {at}"));
                    return;
                }
            }
            if !a.ok && n + 1 != log.len() {
                self.div(m | p(20), "access after fault", format!("{} was made after {a}; {at}", log[n + 1]));
                return;
            }
        }
        let bytes = |l: &[Acc]| l.iter().map(|a| a.size as usize).sum::<usize>();
        if bytes(log) > pool.iter().map(|l| bytes(l)).max().unwrap() + bytes(exc) {
            self.div(m | p(20), "abandoned instruction", format!("{} bytes accessed, at most {} expected; {at}", bytes(log), bytes(pool[0])));
        }
        if out.exc_cycles_known && (res.cycles < out.cyc_min || res.cycles > out.cyc_min + 500) {
            self.div(p(18), "cycles", format!("{} cycles for an abandoned instruction, exception processing alone is {}; {at}", res.cycles, out.cyc_min));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Run loops, host fetches, unrelated cores

impl World {
    /// kind 0: cycle, 1: cycle_until_exception, 2: loop_until_exception_stop. The reference is single-stepping.
    fn run_loop(&mut self, kind: u8, n: usize) {
        if self.ended {
            return;
        }
        let was_stopped = self.core.stop();
        let mut c2 = self.core.clone();
        let mut b2 = self.bus.clone();
        // An access takes at least four cycles; a loop without end of its own is over much sooner here.
        let limit = 60_000 + if n < 2_000_000 { n as u32 } else { 0 };
        b2.limit = limit;
        let r: Result<(usize, Option<u8>), Fail> = match kind {
            0 => c2.cycle(&mut b2, self.torn, n).map(|c| (c, None)),
            1 => c2.cycle_until(&mut b2, self.torn, n),
            _ => c2.run_loop(&mut b2, self.torn),
        };
        for i in 0..self.heap.len() {
            let e = self.heap[i].run_loop(kind, n, limit, r.is_err());
            self.heap_div(e);
        }
        // The same calls on the duplicates.
        let mut twin_res: Vec<Option<(usize, u8)>> = Vec::new();
        let (torn, panicked) = (self.torn, r.is_err());
        for t in self.twins.iter_mut() {
            let x = match t {
                Twin::Dis(c, b) | Twin::Same(c, b) => {
                    b.limit = limit;
                    let x = match kind {
                        0 => c.cycle(b, torn, n).map(|c| (c, None)),
                        1 => c.cycle_until(b, torn, n),
                        _ => c.run_loop(b, torn),
                    };
                    b.limit = 2000;
                    x.ok().map(|(c, v)| (c, v.unwrap_or(0)))
                }
                Twin::Ffi(Some(c), h) if !panicked => {
                    h.bus.limit = limit;
                    let x = match kind {
                        0 => (c.cycle(h, n), 0),
                        1 => c.cycle_until(h, n),
                        _ => c.run_loop(h),
                    };
                    h.bus.limit = 2000;
                    Some(x)
                }
                _ => None,
            };
            twin_res.push(x);
        }
        self.cov.hit(match kind {
            0 => "cycle() runs",
            1 => "cycle_until_exception() runs",
            _ => "loop_until_exception_stop() runs",
        });
        if was_stopped {
            self.cov.hit("run loops entered while stopped");
        }
        // Reference: single steps.
        let twins = std::mem::take(&mut self.twins);
        let mode = std::mem::replace(&mut self.case.twin, TwinMode::None);
        self.capture = Some(Vec::new());
        let (mut total, mut vec, mut steps, mut bad) = (0usize, None, 0u32, false);
        let mut resets = 0;
        while total < n {
            self.bus.resets = 0;
            let Some(x) = self.step(if kind == 0 { Api::I } else { Api::E }) else {
                bad = true;
                break;
            };
            resets += self.bus.resets;
            total += x.cycles;
            steps += 1;
            if kind == 0 {
                if self.core.stop() {
                    total = total.max(n);
                    break;
                }
            } else if x.vec.flatten().is_some() || self.core.stop() {
                vec = x.vec.flatten();
                break;
            }
            if steps > limit {
                bad = true;
                break;
            }
        }
        let cap = self.capture.take().unwrap();
        self.twins = twins;
        self.case.twin = mode;
        let name = ["cycle", "cycle_until_exception", "loop_until_exception_stop"][kind as usize];
        let m = p(12) | if was_stopped || self.core.stop() { p(7) } else { 0 };
        match &r {
            Err(f) => {
                if !bad {
                    self.div(m | p(17), "run loop", format!("{name}({n}) {}, single stepping needs {steps} steps", if *f == Fail::Runaway { "does not end".to_string() } else { format!("{f:?}") }));
                }
                self.ended = true;
                return;
            }
            Ok(got) => {
                if bad {
                    self.ended = true;
                    return;
                }
                let cyc_ok = got.0 == total;
                if !cyc_ok || got.1 != vec {
                    self.div(m, "run loop", format!("{name}({n}) returned {got:?}, single stepping gives ({total}, {vec:?}) after {steps} steps, stopped {}", self.core.stop()));
                }
                let d = regs_diff(&c2.regs(), &self.core.regs());
                if let Some(d) = d {
                    self.div(m, "run loop", format!("{name}({n}): registers differ from single stepping: {d}"));
                }
                if c2.stop() != self.core.stop() {
                    self.div(m, "run loop", format!("{name}({n}): stop flag {} against {}", c2.stop(), self.core.stop()));
                }
                if !same_logs(&b2.log, &cap) {
                    self.div(m, "run loop", format!("{name}({n}): {} bus accesses, single stepping makes {}", b2.log.len(), cap.len()));
                }
                if !b2.mem.same(&self.bus.mem) {
                    self.div(m, "run loop", format!("{name}({n}): memory differs from single stepping"));
                }
                if b2.resets != resets {
                    self.div(m, "run loop", format!("{name}({n}): RESET notified {} times, single stepping {}", b2.resets, resets));
                }
            }
        }
        // Go on with the core that ran the loop.
        let regs = c2.regs();
        self.core = c2;
        b2.limit = 2000;
        self.mem.data.copy_from_slice(&b2.mem.data);
        self.mem.dev_reads.copy_from_slice(&b2.mem.dev_reads);
        self.bus = b2;
        from_regs(&regs, &mut self.st);
        self.st.stop = self.core.stop();
        let v = match &r {
            Ok((_, v)) => *v,
            _ => None,
        };
        self.last = Some(Res { cycles: total, vec: Some(v), text: None });
        let main_res = r.clone().unwrap();
        for i in 0..self.twins.len() {
            let (regs2, stop2, mem_same, name2, mask) = match &self.twins[i] {
                Twin::Dis(c, b) => (c.regs(), c.stop(), b.mem.same(&self.bus.mem), "disassembling core", p(13)),
                Twin::Same(c, b) => (c.regs(), c.stop(), b.mem.same(&self.bus.mem), "duplicate core", p(15)),
                Twin::Ffi(Some(c), h) => (c.regs(), c.stop(), h.bus.mem.same(&self.bus.mem), c.name(), p(14)),
                _ => continue,
            };
            let want = (main_res.0, main_res.1.unwrap_or(0));
            if twin_res[i] != Some(want) {
                self.div(mask, "run loop", format!("{name}({n}) on the {name2} returned {:?}, expected {want:?}", twin_res[i]));
            }
            if let Some(d) = regs_diff(&regs2, &regs) {
                self.div(mask, "run loop", format!("{name}({n}) on the {name2}: registers differ: {d}"));
            }
            if stop2 != self.core.stop() || !mem_same {
                self.div(mask, "run loop", format!("{name}({n}) on the {name2}: stop flag or memory differ"));
            }
        }
        if self.case.twin == TwinMode::Det {
            self.hashes.push(hash_regs(&regs, self.core.stop()) ^ mix(main_res.0 as u64) ^ hash_log(&self.bus.log));
        }
    }

    fn next(&mut self, what: u8) {
        if self.ended {
            return;
        }
        self.cov.hit("host instruction-stream reads");
        let pre = self.st.clone();
        let r = self.core.next(&mut self.bus, self.torn, what);
        self.mirror();
        let regs = self.core.regs();
        match &r {
            Err(f) => {
                self.div(p(17), "panic", format!("get_next {what} panicked: {f:?}"));
                self.ended = true;
                return;
            }
            Ok(v) => {
                if pre.pc & 1 != 0 && (*v != Err(3) || !self.bus.log.is_empty()) {
                    self.div(p(3), "host fetch", format!("fetching at odd pc {:08x} gave {v:?}", pre.pc));
                }
                if let Some(a) = self.bus.odd {
                    self.div(p(3), "odd-access", format!("memory was asked for {a} (misaligned) by a host fetch"));
                }
                let refused = self.bus.log.iter().any(|a| !a.ok);
                if refused != (*v == Err(2)) {
                    self.div(p(2), "host fetch", format!("fetch at {:08x} gave {v:?} although memory {} it", pre.pc, if refused { "refused" } else { "served" }));
                }
            }
        }
        for i in 0..self.heap.len() {
            let e = self.heap[i].next(what);
            self.heap_div(e);
        }
        let rr = r.unwrap();
        let log = std::mem::take(&mut self.bus.log);
        // What a successful fetch read, byte by byte, and where it left the program counter.
        if let Ok(v) = rr {
            let n = if what == 1 { 4u32 } else { 2 };
            let mut at = pre.pc;
            let mut val = 0u64;
            let mut fine = true;
            for a in &log {
                fine &= !a.w && a.addr == at;
                at = at.wrapping_add(a.size as u32);
                val = val << (8 * a.size) | a.val as u64;
            }
            if !fine || at != pre.pc.wrapping_add(n) {
                self.div(p(20), "host fetch", format!("fetch {what} at {:08x} made {:?}", pre.pc, log.iter().map(|a| a.to_string()).collect::<Vec<_>>()));
            } else if val != v as u64 {
                self.div(p(20), "host fetch", format!("fetch {what} at {:08x} gave {v:x}, memory served {val:x}", pre.pc));
            }
            let mut want = pre.clone();
            want.pc = pre.pc.wrapping_add(if what == 2 { 0 } else { n });
            if let Some(d) = regs_diff(&to_regs(&want), &regs) {
                self.div(p(20), "host fetch", format!("registers after fetch {what} at {:08x}: {d}", pre.pc));
            }
        }
        for i in 0..self.twins.len() {
            let torn = self.torn;
            let (x, regs2, l2, mask, name) = match &mut self.twins[i] {
                Twin::Dis(c, b) => {
                    let x = c.next(b, torn, what);
                    (x, c.regs(), b.log.clone(), p(13), "disassembling core")
                }
                Twin::Same(c, b) => {
                    let x = c.next(b, torn, what);
                    (x, c.regs(), b.log.clone(), p(15), "duplicate core")
                }
                Twin::Ffi(Some(c), h) => {
                    let x = Ok(c.next(h, what));
                    (x, c.regs(), h.bus.log.clone(), p(14), c.name())
                }
                _ => continue,
            };
            if x != Ok(rr) || regs_diff(&regs, &regs2).is_some() || !same_logs(&log, &l2) {
                self.div(mask, "host fetch", format!("fetch {what} at {:08x} on the {name} gave {x:?}, expected {rr:?}; registers {:?}", pre.pc, regs_diff(&regs, &regs2)));
            }
        }
        self.bus.log = log;
        from_regs(&regs, &mut self.st);
    }

    fn heap_div(&mut self, e: Option<String>) {
        if let Some(e) = e {
            self.div(p(25), "host memory", e);
        }
    }

    fn make_heap(&mut self, reset: bool) {
        crate::heap::warm_up();
        for t in std::mem::take(&mut self.heap) {
            self.cov.hit("core given up");
            let e = t.retire();
            self.heap_div(e);
        }
        let cpu = self.cpu();
        self.heap.push(crate::heap::Twin::new(cpu, reset, &self.bus, self.torn, false));
        if !cpu.own {
            self.heap.push(crate::heap::Twin::new(cpu, reset, &self.bus, self.torn, true));
        }
    }

    /// The host decodes instructions of the living system, one after the other, as a debugger or disassembler does.
    fn decode(&mut self, addr: u32, n: u32) {
        use m68000::instruction::Instruction;
        if self.ended {
            return;
        }
        self.cov.hit("host decodes an instruction");
        type One = (u32, Result<(u16, u32, String), u8>, u32, usize);
        fn go<M: MemoryAccess + ?Sized>(m: &mut M, addr: u32, n: u32, done: &mut Vec<One>, mark: impl Fn(&M) -> usize) {
            let mut it = m.iter_u16(addr);
            for _ in 0..n {
                let at = it.next_addr;
                let r = Instruction::from_memory(&mut it).map(|i| (i.opcode, i.pc, i.disassemble()));
                done.push((at, r, it.next_addr, mark(it.memory)));
            }
        }
        self.bus.begin();
        let (bus, torn) = (&mut self.bus, self.torn);
        let mut done = Vec::new();
        let r = guard(|| if torn { go(&mut Torn(bus), addr, n, &mut done, |m| m.0.log.len()) } else { go(&mut Atomic(bus), addr, n, &mut done, |m| m.0.log.len()) });
        let log = self.bus.log.clone();
        let mut from = 0;
        self.decoded = None;
        let mut mm = self.mem.clone();
        for (at, r, next, to) in done {
            if let Some(e) = self.decode_one(at, r, next, &log[from..to], &mut mm) {
                self.div(p(24), "decode", e);
                break;
            }
            from = to;
        }
        self.mirror();
        if let Some(a) = self.bus.odd {
            self.div(p(24) | p(3), "decode", format!("decoding at {addr:08x}: memory was asked for {a} (misaligned)"));
        }
        if let Err(f) = r {
            self.div(p(24), "decode", format!("decoding at {addr:08x} after {from} accesses: {f:?}"));
            self.ended = true;
        }
    }

    fn decode_one(&mut self, addr: u32, r: Result<(u16, u32, String), u8>, next: u32, log: &[Acc], mm: &mut Mem) -> Option<String> {
        // What has to be read, and how it ends.
        let mut bytes: Vec<(u32, u8)> = Vec::new();
        let mut refused = None;
        let mut words: Vec<u16> = Vec::new();
        let mut dev = false;
        if addr & 1 == 0 {
            let mut n = 1;
            let mut i = 0;
            while i < n {
                let a = addr.wrapping_add(2 * i);
                if !(mm.readable(a) && mm.readable(a.wrapping_add(1))) {
                    refused = Some(a);
                    break;
                }
                dev |= matches!(mm.cell(a), Some(Cell::Dev(_)));
                // Device registers change when they are read, one byte after the other.
                let w = (mm.read_byte_fx(a) as u16) << 8 | mm.read_byte_fx(a.wrapping_add(1)) as u16;
                if i == 0 {
                    n = model::words(w);
                }
                words.push(w);
                bytes.push((a, (w >> 8) as u8));
                bytes.push((a.wrapping_add(1), w as u8));
                i += 1;
            }
        }
        let at = format!("decoding at {addr:08x}, words {words:04x?}{}", refused.map_or(String::new(), |a| format!(", {a:08x} refused")));
        let mut seen: Vec<(u32, u8)> = Vec::new();
        for (i, a) in log.iter().enumerate() {
            if a.w {
                return Some(format!("{at}: {a} was made"));
            } else if !a.ok {
                if refused.is_none_or(|x| x.wrapping_sub(a.addr) >= a.size as u32) {
                    return Some(format!("{at}: {a} was made"));
                } else if i + 1 != log.len() {
                    return Some(format!("{at}: {} was made after {a}", log[i + 1]));
                }
            } else {
                for k in 0..a.size as u32 {
                    seen.push((a.addr.wrapping_add(k), (a.val >> (8 * (a.size as u32 - 1 - k))) as u8));
                }
            }
        }
        // A long read as a whole is refused as a whole.
        let late = log.iter().any(|a| !a.ok && refused.is_some_and(|x| x != a.addr));
        if seen != bytes && !(late && bytes.starts_with(&seen)) {
            return Some(format!("{at}: read {seen:02x?} instead of {bytes:02x?}"));
        }
        if refused.is_some() && !log.iter().any(|a| !a.ok) {
            return Some(format!("{at}: the refused word was not asked for"));
        }
        match (&r, addr & 1 != 0, refused) {
            (Err(3), true, _) | (Err(2), false, Some(_)) => {}
            (Ok((op, pc, _)), false, None) => {
                let end = addr.wrapping_add(2 * words.len() as u32);
                if *op != words[0] || *pc != addr || next != end {
                    return Some(format!("{at}: opcode {op:04x} at {pc:08x}, next word at {next:08x} instead of {end:08x}"));
                }
            }
            _ => return Some(format!("{at}: gave {r:?}")),
        }
        self.cov.hit(match (addr & 1 != 0, refused.is_some(), words.len()) {
            (true, ..) => "decode: odd address",
            (_, true, 0) => "decode: opcode refused",
            (_, true, _) => "decode: extension word refused",
            (_, _, 1) => "decode: one word",
            _ => "decode: several words",
        });
        if let (Ok((_, _, t)), true) = (&r, self.case.prop == 23) {
            let mut get = |a: u32| words.get(a.wrapping_sub(addr) as usize / 2).copied();
            if let Some(w) = crate::text::differs(t, &mut get, addr) {
                self.div(p(23), "text of a decoded instruction", format!("{at}: {t:?}, the instruction there is {w:?}"));
            }
            self.cov.hit("decoded texts compared with the encoding");
        }
        if let (Ok((_, _, t)), true, false) = (r, self.decoded.is_none(), dev) {
            if addr == self.st.pc {
                self.decoded = Some((addr, words.len() as u32, t));
            }
        }
        None
    }

    /// An instruction is assembled and loaded.
    fn assemble(&mut self, addr: u32, b: &[u8], spoil: u32) {
        let w: Vec<u16> = b.chunks_exact(2).map(|x| (x[0] as u16) << 8 | x[1] as u16).collect();
        let done = crate::asm::assemble(&w, addr, spoil);
        if let Some(e) = done.bad {
            self.div(p(21), "assembler", format!("at {addr:08x}: {e}"));
        }
        self.cov.hit(if done.words.is_some() { "instructions assembled and decoded" } else { "words that are no instruction" });
        self.kf += done.known as u64;
        if done.refused {
            self.cov.hit("requests the assembler refuses");
        }
        let mut b = b.to_vec();
        for (i, x) in done.words.unwrap_or_default().iter().enumerate() {
            if 2 * i + 1 < b.len() {
                b[2 * i..2 * i + 2].copy_from_slice(&x.to_be_bytes());
            }
        }
        self.apply(&Op::Mem(addr, b));
    }

    /// The status register the core is left with, in its two forms. The raw one is the model's.
    fn converted(&mut self, out: &Out, regs: &Registers) {
        use m68000::status_register::StatusRegister as Sr;
        let image = |s: Sr| u16::from(s);
        let s = regs.sr;
        let fields = |s: Sr| (s.t as u16) << 15 | (s.s as u16) << 13 | (s.interrupt_mask as u16) << 8 | (s.x as u16) << 4 | (s.n as u16) << 3 | (s.z as u16) << 2 | (s.v as u16) << 1 | s.c as u16;
        let raw = fields(s);
        let mut bad: Vec<String> = Vec::new();
        let mut is = |what: std::fmt::Arguments<'_>, got: u16, want: u16| {
            if got != want {
                bad.push(format!("{what}: {got:04x} instead of {want:04x}"));
            }
        };
        // A value of one's own for the other operand, and for the bits that do not exist.
        let h = hash_regs(regs, false) ^ mix(self.cov.cycles);
        let other = match h >> 32 & 7 {
            0 => raw,
            1 => !raw,
            2 => 1 << (h & 15),
            3 => !(1 << (h & 15)),
            _ => h as u16,
        };
        let junk = (h >> 16) as u16 & !model::SR_MASK;
        is(format_args!("image of the core's status register"), image(s), raw);
        for r in [raw, raw | junk, other] {
            is(format_args!("fields made from {r:04x}"), fields(Sr::from(r)), r & model::SR_MASK);
            is(format_args!("image made from {r:04x}"), image(Sr::from(r)), r & model::SR_MASK);
        }
        let mut t = s;
        t &= other;
        is(format_args!("{raw:04x} and {other:04x}"), fields(t), raw & other);
        let mut t = s;
        t |= other;
        is(format_args!("{raw:04x} or {other:04x}"), fields(t), (raw | other) & model::SR_MASK);
        let mut t = s;
        t ^= other;
        is(format_args!("{raw:04x} exclusive or {other:04x}"), fields(t), (raw ^ other) & model::SR_MASK);
        let mut t = s;
        t.set_ccr(other);
        is(format_args!("{raw:04x} with the condition codes of {other:04x}"), fields(t), raw & 0xFF00 | other & 0x1F);
        is(format_args!("the default"), fields(Sr::default()), 0x2700);
        for c in 0..16 {
            is(format_args!("condition {c} of {raw:04x}"), s.condition(c) as u16, model::cond(raw, c as u16) as u16);
        }
        self.cov.hit("status registers converted");
        if junk != 0 {
            self.cov.hit("status registers with bits that do not exist");
        }
        for b in bad {
            self.div(p(22), "status register", format!("{b}; at {:08x} op {:04x?} ({:?})", out.ipc, out.op, out.k));
        }
    }

    fn noise(&mut self, seed: u64) {
        self.cov.hit("unrelated core interleaved");
        let mut r = Rng::new(seed);
        if self.noise.is_none() {
            let mut m = Mem::new(Map::Std);
            image(&mut m, !self.scc, self.case.image ^ 0x55);
            self.noise = Some(Box::new((Rust::new(Cpu { scc: !self.scc, own: false }, true), Bus::new(m))));
        }
        let scc = !self.scc;
        let torn = !self.torn;
        let n = self.noise.as_mut().unwrap();
        for _ in 0..1 + r.below(4) {
            if r.pm(500) {
                let mut s = St::new();
                from_regs(&n.0.regs(), &mut s);
                s.pc = 0x1000 + 2 * r.below(0x800);
                s.d[r.below(8) as usize] = r.u32();
                s.a[r.below(7) as usize] = 0x3000 + 2 * r.below(0x400);
                s.ssp = 0x3F00;
                s.sr = if r.pm(500) { 0x2700 } else { r.u16() & model::SR_MASK };
                n.0.set_regs(to_regs(&s));
            }
            if r.pm(200) {
                n.0.exception(r.u8());
            }
            let api = *r.pick(&[Api::I, Api::E, Api::D, Api::X]);
            if n.0.step(api, &mut n.1, torn).is_err() {
                n.0 = Rust::new(Cpu { scc, own: false }, true);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Duplicates: disassembling core, C interface, clone, slice memories

impl World {
    fn run_twins(&mut self, api: Api, out: &Out, r: &Result<Res, Fail>, log: &[Acc], regs: &Registers) {
        let torn = self.torn;
        let stop = self.core.stop();
        let resets = self.bus.resets;
        let mut divs: Vec<(u32, &'static str, String)> = Vec::new();
        let at = format!("{} at {:08x} op {} ({:?}) api {:?}", self.cpu_name(), out.ipc, out.op.map_or("-".into(), |o| format!("{o:04x}")), out.k, api);
        for t in self.twins.iter_mut() {
            match t {
                Twin::Dis(c, b) => {
                    let api2 = match api {
                        Api::I => Api::D,
                        Api::E => Api::X,
                        Api::D => Api::I,
                        Api::X => Api::E,
                    };
                    b.resets = 0;
                    let x = c.step(api2, b, torn);
                    let tag = "disassembly";
                    match (&x, r) {
                        (Ok(y), Ok(z)) => {
                            if y.cycles != z.cycles || y.vec != z.vec {
                                divs.push((p(13), tag, format!("cycles {} vector {:?} with disassembly, {} {:?} without; {at}", y.cycles, y.vec, z.cycles, z.vec)));
                            }
                            let (text, main) = if let Some(t) = &y.text { (Some(t), false) } else { (z.text.as_ref(), true) };
                            let _ = main;
                            if let Some((addr, s)) = text {
                                if out.instr && out.op.is_some() {
                                    let mut mm;
                                    let mut pk = Peek(&self.mem);
                                    if out.exc_log > 0 {
                                        mm = self.mem.clone();
                                        for a in &out.log[..out.exc_log] {
                                            if a.w {
                                                for i in 0..a.size as u32 {
                                                    mm.poke(a.addr.wrapping_add(i), (a.val >> (8 * (a.size as u32 - 1 - i))) as u8);
                                                }
                                            }
                                        }
                                        pk = Peek(&mm);
                                    }
                                    if *addr == out.ipc && !s.is_empty() {
                                        if let Some(w) = crate::text::differs(s, &mut |a| pk.get_word(a), out.ipc) {
                                            divs.push((p(13) | p(23), "disassembly text", format!("{addr:08x} {s:?}, the instruction there is {w:?}; {at}")));
                                        }
                                        self.cov.hit("texts compared with the encoding");
                                    }
                                    match want_text(&mut pk, out.ipc) {
                                        Some(Ok(w)) if *addr != out.ipc || *s != w => {
                                            divs.push((p(13) | p(23), "disassembly text", format!("{addr:08x} {s:?}, expected {:08x} {w:?}; {at}", out.ipc)));
                                        }
                                        Some(Err(_)) if !s.is_empty() => {
                                            divs.push((p(13) | p(23), "disassembly text", format!("text {s:?} for an instruction that could not be read; {at}")));
                                        }
                                        _ => {}
                                    }
                                } else if !(out.instr && out.op.is_some()) && !s.is_empty() {
                                    divs.push((p(13) | p(23), "disassembly text", format!("text {s:?} for a step that executed nothing; {at}")));
                                }
                            }
                        }
                        (Err(_), Err(_)) => {}
                        _ => divs.push((p(13), tag, format!("only one of the two interpreters panicked: {x:?} / {:?}; {at}", r.as_ref().err()))),
                    }
                    continue_compare(&mut divs, c, b, regs, stop, log, resets, &at);
                }
                Twin::Same(c, b) => {
                    b.resets = 0;
                    let x = c.step(api, b, torn);
                    if x != *r {
                        divs.push((p(15), "clone", format!("{x:?} / {r:?}; {at}")));
                    }
                    if let Some(d) = regs_diff(&c.regs(), regs) {
                        divs.push((p(15), "clone", format!("registers differ: {d}; {at}")));
                    }
                    if c.stop() != stop || b.resets != resets || !same_logs(&b.log, log) {
                        divs.push((p(15), "clone", format!("stop flag, RESET or accesses differ; {at}")));
                    }
                }
                Twin::Ffi(core, h) => {
                    let Ok(z) = r else {
                        // A panic may not cross the C boundary: the duplicate is dropped instead.
                        if let Some(c) = core.take() {
                            c.delete();
                        }
                        continue;
                    };
                    let Some(c) = core else { continue };
                    h.bus.resets = 0;
                    let (y, bad) = c.step(api, h, self.len);
                    if let Some(b) = bad {
                        divs.push((p(14), "C buffer", format!("{b}; {at}")));
                    }
                    if y.cycles != z.cycles || y.vec != z.vec {
                        divs.push((p(14), "C result", format!("{}: cycles {} vector {:?}, Rust gives {} {:?}; {at}", c.name(), y.cycles, y.vec, z.cycles, z.vec)));
                    }
                    if let (Some((a, s)), Some((b, t))) = (&y.text, &z.text) {
                        let full: &str = t;
                        let n = self.len.saturating_sub(1).min(full.len());
                        if a != b || s.as_bytes() != &full.as_bytes()[..n] {
                            divs.push((p(14), "C text", format!("{a:08x} {s:?} in a {} byte buffer, Rust gives {b:08x} {t:?}; {at}", self.len)));
                        }
                    }
                    for (rg, n) in [(c.regs(), "get_registers"), (c.regs_live(), "registers")] {
                        if let Some(d) = regs_diff(&rg, regs) {
                            divs.push((p(14), "C registers", format!("{n}: {d}; {at}")));
                        }
                    }
                    if c.stop() != stop || h.bus.resets != resets || !same_logs(&h.bus.log, log) {
                        divs.push((p(14), "C accesses", format!("stop flag, RESET or accesses differ: {:?} / {:?}; {at}", h.bus.log.last().map(|a| a.to_string()), log.last().map(|a| a.to_string()))));
                    }
                }
                Twin::S8(c, m) => {
                    let x = guard(|| c.step_on(api, m.as_mut_slice()));
                    slice_cmp(&mut divs, "byte slice", &x, r, &c.regs(), regs, &at);
                }
                Twin::S16(c, m) => {
                    let x = guard(|| c.step_on(api, m.as_mut_slice()));
                    slice_cmp(&mut divs, "word slice", &x, r, &c.regs(), regs, &at);
                }
            }
        }
        if self.case.twin == TwinMode::Slice {
            // Memory contents: equal everywhere, except the part of a refused long write that lies inside.
            let n = self.bus.mem.data.len();
            let refused_w = log.iter().any(|a| a.w && !a.ok);
            for t in self.twins.iter_mut() {
                let mut img = match t {
                    Twin::S8(_, m) => m.clone(),
                    Twin::S16(_, m) => m.iter().flat_map(|w| w.to_be_bytes()).collect(),
                    _ => continue,
                };
                if img == self.bus.mem.data {
                    continue;
                }
                let lo = if refused_w { n.saturating_sub(4) } else { n };
                if let Some(i) = (0..n).find(|i| img[*i] != self.bus.mem.data[*i] && *i < lo) {
                    divs.push((p(16), "slice memory", format!("byte {:x} of {:x} is {:02x}, expected {:02x}; {at}", i, n, img[i], self.bus.mem.data[i])));
                }
                img.copy_from_slice(&self.bus.mem.data);
                match t {
                    Twin::S8(_, m) => *m = img,
                    Twin::S16(_, m) => *m = img.chunks(2).map(|b| u16::from_be_bytes([b[0], b[1]])).collect(),
                    _ => {}
                }
            }
        }
        for (m, k, s) in divs {
            self.div(m, k, s);
        }
    }
}

/// The text of the instruction there, Err if memory refuses part of it.
fn want_text(pk: &mut Peek, ipc: u32) -> Option<Result<String, u8>> {
    use m68000::instruction::Instruction;
    guard(|| {
        let mut it = pk.iter_u16(ipc);
        Instruction::from_memory(&mut it).map(|i| i.disassemble())
    })
    .ok()
}

fn continue_compare(divs: &mut Vec<(u32, &'static str, String)>, c: &Rust, b: &Bus, regs: &Registers, stop: bool, log: &[Acc], resets: u32, at: &str) {
    if let Some(d) = regs_diff(&c.regs(), regs) {
        divs.push((p(13), "disassembly", format!("registers differ (with / without): {d}; {at}")));
    }
    if c.stop() != stop || b.resets != resets || !same_logs(&b.log, log) {
        divs.push((p(13), "disassembly", format!("stop flag, RESET or accesses differ: {} / {} accesses; {at}", b.log.len(), log.len())));
    }
}

fn slice_cmp(divs: &mut Vec<(u32, &'static str, String)>, name: &str, x: &Result<Res, Fail>, r: &Result<Res, Fail>, a: &Registers, b: &Registers, at: &str) {
    match (x, r) {
        (Ok(x), Ok(r)) => {
            if x.cycles != r.cycles || x.vec != r.vec {
                divs.push((p(16), "slice", format!("{name}: cycles {} vector {:?}, RAM gives {} {:?}; {at}", x.cycles, x.vec, r.cycles, r.vec)));
            } else if let Some(d) = regs_diff(a, b) {
                divs.push((p(16), "slice", format!("{name}: registers differ: {d}; {at}")));
            }
        }
        (Err(_), Err(_)) => {}
        (x, r) => divs.push((p(16), "slice", format!("{name}: {:?}, RAM gives {:?}; {at}", x.as_ref().err(), r.as_ref().err()))),
    }
}

// ---------------------------------------------------------------------------------------------
// Direct accesses to slice memories

fn expect_get(img: &[u8], a: u32, n: u32) -> Option<u32> {
    let a = a as u64;
    if a + n as u64 > img.len() as u64 {
        return None;
    }
    Some((0..n as u64).fold(0, |v, i| v << 8 | img[(a + i) as usize] as u32))
}

fn probe<M: MemoryAccess + ?Sized>(m: &mut M, img: &[u8], a: u32, name: &str, odd: bool) -> Option<String> {
    let r = guard(|| m.get_byte(a));
    if r != Ok(expect_get(img, a, 1).map(|v| v as u8)) {
        return Some(format!("{name} of {} bytes: get_byte({a:x}) = {r:x?}", img.len()));
    }
    if a & 1 == 0 || odd {
        let r = guard(|| m.get_word(a));
        if r != Ok(expect_get(img, a, 2).map(|v| v as u16)) {
            return Some(format!("{name} of {} bytes: get_word({a:x}) = {r:x?}", img.len()));
        }
        let r = guard(|| m.get_long(a));
        if r != Ok(expect_get(img, a, 4)) {
            return Some(format!("{name} of {} bytes: get_long({a:x}) = {r:x?}", img.len()));
        }
    }
    None
}

/// Writes one unit through the memory and the image. `size` 1, 2 or 4.
fn probe_set<M: MemoryAccess + ?Sized>(m: &mut M, img: &mut [u8], a: u32, size: u32, v: u32, name: &str) -> (Option<String>, bool) {
    let inside = a as u64 + size as u64 <= img.len() as u64;
    let r = guard(|| match size {
        1 => m.set_byte(a, v as u8),
        2 => m.set_word(a, v as u16),
        _ => m.set_long(a, v),
    });
    let n = img.len();
    if r != Ok(inside.then_some(())) {
        return (Some(format!("{name} of {n} bytes: set of {size} bytes at {a:x} = {r:?}")), inside);
    }
    if inside {
        for i in 0..size {
            img[(a + i) as usize] = (v >> (8 * (size - 1 - i))) as u8;
        }
    }
    (None, inside)
}

fn slice_suite(img: &mut Vec<u8>, a: u32, v: u32) -> Option<String> {
    // Word slices hold words in host order; only aligned word accesses are meaningful for the core.
    let mut b = img.clone();
    if let Some(e) = probe(b.as_mut_slice(), img, a, "[u8]", false) {
        return Some(e);
    }
    if let Some(e) = probe(&mut b.as_slice(), img, a, "&[u8]", false) {
        return Some(e);
    }
    let even = img.len() % 2 == 0;
    let mut w: Vec<u16> = if even { img.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect() } else { Vec::new() };
    if even {
        if let Some(e) = probe(w.as_mut_slice(), img, a, "[u16]", false) {
            return Some(e);
        }
        if let Some(e) = probe(&mut w.as_slice(), img, a, "&[u16]", false) {
            return Some(e);
        }
    }
    for size in [1u32, 2, 4] {
        if size > 1 && a & 1 != 0 {
            continue;
        }
        let vv = v.rotate_left(size * 3);
        let mut img2 = img.clone();
        let (e, ok) = probe_set(b.as_mut_slice(), &mut img2, a, size, vv, "[u8]");
        if e.is_some() {
            return e;
        }
        let lo = if ok || size < 4 { img.len() } else { (a as usize).min(img.len()) };
        if b[..lo] != img2[..lo] {
            return Some(format!("[u8] of {} bytes: contents wrong after setting {size} bytes at {a:x}", img.len()));
        }
        if even {
            let mut img3 = img.clone();
            let (e, _) = probe_set(w.as_mut_slice(), &mut img3, a, size, vv, "[u16]");
            if e.is_some() {
                return e;
            }
            let wb: Vec<u8> = w.iter().flat_map(|x| x.to_be_bytes()).collect();
            if wb[..lo] != img3[..lo] {
                return Some(format!("[u16] of {} bytes: contents wrong after setting {size} bytes at {a:x}", img.len()));
            }
        }
        *img = img2;
        b.copy_from_slice(img);
        if even {
            w = img.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
        }
    }
    None
}

impl World {
    fn slice_access(&mut self, a: u32, v: u32) {
        self.cov.hit("direct accesses to slice memories");
        let mut img = self.bus.mem.data.clone();
        if let Some(e) = slice_suite(&mut img, a, v) {
            self.div(p(16), "slice access", e);
        }
    }
    fn tiny(&mut self, len: u32, a: u32, v: u32) {
        self.cov.hit("direct accesses to tiny slices");
        let mut r = Rng::new(v as u64);
        let mut img: Vec<u8> = (0..len).map(|_| r.u8()).collect();
        if let Some(e) = slice_suite(&mut img, a, v) {
            self.div(p(16), "slice access", e);
        }
    }
}

// Big slices: all zero between accesses, so that their pages are only touched where they are accessed.

pub const BIG: [u64; 7] = [0x1_0000, 0x1_0002, 0x2_3456, 0x100_0000, 0x123_4568, 0x9000_0000, 0x1_0000_0008];

type BigPair = (Option<Box<[u8]>>, Option<Box<[u16]>>);
thread_local! {
    static BIGS: std::cell::RefCell<Vec<Option<BigPair>>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// A zeroed slice whose memory is only reserved until it is touched, or nothing if the machine refuses.
fn zeroed<T: Copy>(n: usize) -> Option<Box<[T]>> {
    let l = std::alloc::Layout::array::<T>(n).ok()?;
    // SAFETY: T is u8 or u16, for which all-zero bytes are a value; the layout is the one Box frees with.
    unsafe {
        let q = std::alloc::alloc_zeroed(l) as *mut T;
        if q.is_null() {
            return None;
        }
        Some(Box::from_raw(std::ptr::slice_from_raw_parts_mut(q, n)))
    }
}

fn big_one<M: MemoryAccess + ?Sized>(m: &mut M, n: u64, a: u32, v: u32, name: &str) -> Option<String> {
    let mut shadow: std::collections::BTreeMap<u64, u8> = Default::default();
    // Where a wrong address would alias.
    let mut at: Vec<u32> = vec![a];
    for d in [2u32, 4, 0x8000, 0x1_0000, 0x80_0000, 0x100_0000, 0x4000_0000, 0x8000_0000] {
        at.push(a.wrapping_add(d));
        at.push(a.wrapping_sub(d));
    }
    at.extend([a & 0xFFFF, a & 0x7FFF, a & 0xFF_FFFF, a & 0x7FFF_FFFF]);
    let get = |s: &std::collections::BTreeMap<u64, u8>, a: u32, k: u32| -> Option<u32> {
        if a as u64 + k as u64 > n {
            return None;
        }
        Some((0..k as u64).fold(0, |x, i| x << 8 | s.get(&(a as u64 + i)).copied().unwrap_or(0) as u32))
    };
    for size in [1u32, 2, 4] {
        if size > 1 && a & 1 != 0 {
            continue;
        }
        // A long whose second half is outside may be half written, a long around the end of the address space too: not aimed at.
        if size == 4 && a as u64 + 4 > n.min(1 << 32) {
            continue;
        }
        let val = v.rotate_left(size * 5);
        let inside = a as u64 + size as u64 <= n;
        let r = guard(|| match size {
            1 => m.set_byte(a, val as u8),
            2 => m.set_word(a, val as u16),
            _ => m.set_long(a, val),
        });
        if r != Ok(inside.then_some(())) {
            return Some(format!("{name} of {n:#x} bytes: set of {size} bytes at {a:x} = {r:?}"));
        }
        if inside {
            for i in 0..size {
                shadow.insert(a as u64 + i as u64, (val >> (8 * (size - 1 - i))) as u8);
            }
        }
        for &b in &at {
            let r = guard(|| m.get_byte(b));
            if r != Ok(get(&shadow, b, 1).map(|x| x as u8)) {
                return Some(format!("{name} of {n:#x} bytes: after setting {size} bytes at {a:x}, get_byte({b:x}) = {r:x?}"));
            }
            if b & 1 == 0 {
                let r = guard(|| m.get_word(b));
                if r != Ok(get(&shadow, b, 2).map(|x| x as u16)) {
                    return Some(format!("{name} of {n:#x} bytes: after setting {size} bytes at {a:x}, get_word({b:x}) = {r:x?}"));
                }
                if b as u64 + 4 <= 1 << 32 {
                    let r = guard(|| m.get_long(b));
                    if r != Ok(get(&shadow, b, 4)) {
                        return Some(format!("{name} of {n:#x} bytes: after setting {size} bytes at {a:x}, get_long({b:x}) = {r:x?}"));
                    }
                }
            }
        }
    }
    for k in shadow.keys() {
        let _ = m.set_byte(*k as u32, 0);
    }
    None
}

impl World {
    fn big(&mut self, i: u32, a: u32, v: u32) {
        let i = i as usize % BIG.len();
        let n = BIG[i];
        let e = BIGS.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() < BIG.len() {
                c.resize_with(BIG.len(), || None);
            }
            let (b, w) = c[i].get_or_insert_with(|| (zeroed(n as usize), zeroed(n as usize / 2)));
            if let Some(b) = b {
                if let Some(e) = big_one(&mut b[..], n, a, v, "[u8]") {
                    return Some(e);
                }
                self.cov.hit("direct accesses to big slices");
            }
            if let Some(w) = w {
                if let Some(e) = big_one(&mut w[..], n, a, v, "[u16]") {
                    return Some(e);
                }
            }
            None
        });
        if let Some(e) = e {
            // Whatever was left in the slices must not disturb another run.
            BIGS.with(|c| c.borrow_mut()[i] = None);
            self.div(p(16), "slice access", e);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// A program against itself without interrupts

impl World {
    fn snap(core: &Rust, bus: &Bus, sup: bool) -> Snap {
        let mut s = St::new();
        from_regs(&core.regs(), &mut s);
        let mut h = 0;
        for a in (PROG_DATA_LO..PROG_DATA_HI).step_by(8) {
            h = mix(h ^ (bus.mem.peek32(a) as u64) << 32 ^ bus.mem.peek32(a + 4) as u64);
        }
        Snap { d: s.d, a: s.a, usp: s.usp, ssp: s.ssp, sr: s.sr, pc: s.pc, mem: h, vec: None }
    }

    fn in_prog(pc: u32) -> bool {
        (PROG_LO..PROG_HI).contains(&pc)
    }

    /// Whether a program instruction kept to what the handlers leave alone: its code, its data, and its own stack
    /// from the stack pointer up (below a shared stack pointer lies whatever the last handler left).
    fn keeps_to_itself(pre: &St, post: &St, log: &[Acc]) -> bool {
        let lo = pre.sp().min(post.sp());
        log.iter().all(|a| {
            let end = a.addr.wrapping_add(a.size as u32);
            let inside = |x: u32, y: u32| a.addr >= x && end <= y && a.addr < end;
            if a.w {
                inside(PROG_DATA_LO, PROG_DATA_HI) || inside(lo.max(STACK_LO), STACK_HI)
            } else {
                inside(PROG_LO, PROG_HI) || inside(PROG_DATA_LO, PROG_DATA_HI) || inside(pre.sp().max(STACK_LO), STACK_HI)
            }
        })
    }

    /// Some programs are followed for much longer.
    pub fn long_prog(&self) -> bool {
        self.case.image % 40 == 7
    }

    fn mark(&mut self) {
        if self.ended || self.prog.is_some() {
            return;
        }
        let sup = self.st.sr & model::S != 0;
        let mut c = self.core.clone();
        let mut b = self.bus.clone();
        let mut base = vec![Self::snap(&c, &b, sup)];
        let mut steps = 0;
        let mut own = false;
        let most = if self.long_prog() { 4000 } else { 160 };
        while base.len() < most && steps < 25 * most {
            steps += 1;
            let (mut pre, mut post) = (St::new(), St::new());
            from_regs(&c.regs(), &mut pre);
            let Ok(r) = c.step(Api::E, &mut b, self.torn) else { break };
            from_regs(&c.regs(), &mut post);
            let trap = std::mem::take(&mut own);
            if c.stop() || post.ssp < SSP_MIN {
                break;
            }
            // A handler, or the entry into one the program asked for.
            let inside = trap || !Self::in_prog(pre.pc);
            if !inside && !Self::keeps_to_itself(&pre, &post, &b.log) {
                break;
            }
            if let Some(v) = r.vec.flatten() {
                if inside || !matches!(v, 5..=7 | 9 | 32..=47) {
                    break;
                }
                c.exception(v);
                own = true;
            }
            if !inside {
                base.push(Snap { vec: r.vec.flatten(), ..Self::snap(&c, &b, sup) });
            } else if !Self::in_prog(post.pc) && !(0x400..0x1000).contains(&post.pc) {
                break;
            }
        }
        self.prog = Some(Prog { base, n: 0, want: [0; 256], pend: [false; 256], sup, done: false, wrecked: false });
    }

    fn prog_step(&mut self, pre: &St, res: &Res) {
        let mut pr = self.prog.take().unwrap();
        if self.st.ssp < SSP_MIN {
            pr.done = true;
            pr.wrecked = true;
        }
        let vecs: Vec<u8> = seen_vectors(&self.bus.log, false);
        for v in &vecs {
            if !pr.pend[*v as usize] && model::is_irq(*v) {
                self.div(p(19) | p(5), "invented interrupt", format!("vector {v} taken although nobody requested it"));
            }
            pr.pend[*v as usize] = false;
        }
        if vecs.is_empty() && Self::in_prog(pre.pc) && !pr.done && !pre.stop {
            pr.n += 1;
            if pr.n >= pr.base.len() {
                pr.done = true;
            } else {
                let mut s = Self::snap(&self.core, &self.bus, pr.sup);
                // The interpreters without a vector do not say.
                s.vec = res.vec.map_or(pr.base[pr.n].vec, |v| v);
                let b = &pr.base[pr.n];
                self.cov.hit("program boundaries compared with the uninterrupted run");
                if s != *b {
                    let mut x = String::new();
                    for i in 0..8 {
                        if s.d[i] != b.d[i] {
                            x += &format!(" d{} {:08x}/{:08x}", i, s.d[i], b.d[i]);
                        }
                    }
                    for i in 0..7 {
                        if s.a[i] != b.a[i] {
                            x += &format!(" a{} {:08x}/{:08x}", i, s.a[i], b.a[i]);
                        }
                    }
                    for (n, p, q) in [("usp", s.usp, b.usp), ("ssp", s.ssp, b.ssp), ("pc", s.pc, b.pc), ("sr", s.sr as u32, b.sr as u32)] {
                        if p != q {
                            x += &format!(" {n} {p:08x}/{q:08x}");
                        }
                    }
                    if s.mem != b.mem {
                        x += " memory";
                    }
                    if s.vec != b.vec {
                        x += &format!(" vector raised {:?}/{:?}", s.vec, b.vec);
                    }
                    self.div(p(19), "interrupted program", format!("after {} program instructions (interrupted/uninterrupted):{x}", pr.n));
                    pr.done = true;
                }
            }
        }
        if let Some(Some(v)) = res.vec {
            // The program's own traps are taken at once; anything else ends the observation.
            if matches!(v, 5..=7 | 9 | 32..=47) && Self::in_prog(pre.pc) && vecs.is_empty() {
                let _ = v;
            } else if !pr.done {
                if pr.n + 1 < pr.base.len() {
                    self.div(p(19), "interrupted program", format!("vector {v} raised after {} program instructions, the uninterrupted run raised none", pr.n));
                }
                pr.done = true;
            }
        }
        self.prog = Some(pr);
    }

    /// No more requests: every handler owed must run exactly once within a bounded number of steps.
    fn drain(&mut self) {
        if self.ended || self.prog.is_none() {
            return;
        }
        self.prog.as_mut().unwrap().done = true;
        // The rest of the program does nothing.
        let mut idle = [0x4E, 0x71].repeat((PROG_HI - PROG_LO) as usize / 2);
        let n = idle.len();
        idle[n - 4..].copy_from_slice(&[0x4E, 0xF8, (PROG_LO >> 8) as u8, PROG_LO as u8]);
        self.apply(&Op::Mem(PROG_LO, idle));
        let mut spin = 0;
        while spin < 4000 && !self.prog.as_ref().unwrap().wrecked {
            let home = Self::in_prog(self.st.pc);
            if home && self.st.sr & 0x0700 != 0 {
                self.apply(&Op::Reg(18, (self.st.sr & !0x0700) as u32));
            }
            let pr = self.prog.as_ref().unwrap();
            let owed = (25..=63usize).any(|v| model::is_irq(v as u8) && pr.pend[v]);
            if !owed && home {
                break;
            }
            spin += 1;
            let Some(r) = self.step(Api::E) else { return };
            if r.vec.flatten().is_some() {
                break;
            }
        }
        let pr = self.prog.as_ref().unwrap();
        if pr.wrecked {
            return;
        }
        let mut bad = Vec::new();
        for v in 0..256usize {
            if model::is_irq(v as u8) {
                let got = self.bus.mem.peek32(CNT + 4 * v as u32);
                if got != pr.want[v] {
                    bad.push(format!("vector {v}: requested {} times, handler ran {got} times", pr.want[v]));
                }
            }
        }
        if !bad.is_empty() {
            self.div(p(19) | p(5), "handler count", bad.join("; "));
        }
        self.cov.hit("interrupt handler counts checked");
    }
}
