//! What is run for each property.
use crate::gen::*;
use crate::model::{kind, K};
use crate::ops::TwinMode;

pub struct Plan {
    pub quick: u64,
    pub thorough: u64,
    pub profs: Vec<(u32, Prof)>,
    pub lin: bool,
    /// A run counts as non-trivial for the property if one of these counters moved (or, if empty, always).
    pub trigger: &'static [&'static str],
}

const SRK: &[K] = &[K::AndiSr, K::OriSr, K::EoriSr, K::MoveToSr, K::Rte, K::Nop, K::Stop];
const TRAPS: &[K] = &[K::Trap, K::Trapv, K::Chk, K::Divu, K::Divs, K::Illegal, K::LineA, K::LineF, K::Unknown, K::Rte, K::Rte];
const PRIV: &[K] = &[K::AndiSr, K::OriSr, K::EoriSr, K::MoveToSr, K::MoveUsp, K::Reset, K::Rte, K::Stop];
const STOPS: &[K] = &[K::Stop, K::Stop, K::Stop, K::AndiSr, K::MoveToSr, K::Rte];
const SRX: &[K] = &[
    K::AndiSr, K::OriSr, K::EoriSr, K::MoveToSr, K::MoveFromSr, K::Rte, K::Stop, K::MoveToCcr, K::Rtr, K::AndiCcr, K::OriCcr, K::EoriCcr, K::Scc, K::Bcc, K::Bcc, K::Dbcc, K::Cmp, K::Addx,
    K::Subx, K::Move, K::Sub, K::Add,
];
const USERK: &[K] = &[
    K::AndiSr, K::OriSr, K::EoriSr, K::MoveToSr, K::MoveUsp, K::Reset, K::Rte, K::Stop, K::MoveToCcr, K::Rtr, K::AndiCcr, K::OriCcr, K::EoriCcr, K::Link, K::Unlk, K::Trap,
    K::Exg, K::Movem, K::Pea, K::Movea, K::Adda, K::Lea,
];
const MEMK: &[K] = &[
    K::Ori, K::Andi, K::Subi, K::Addi, K::Eori, K::Cmpi, K::Btst, K::Bchg, K::Bclr, K::Bset, K::Movep, K::Move, K::Move, K::Move, K::Movea, K::MoveFromSr, K::MoveToCcr, K::Negx,
    K::Clr, K::Neg, K::Not, K::Nbcd, K::Pea, K::Movem, K::Movem, K::Movem, K::Tas, K::Tst, K::Link, K::Unlk, K::Rts, K::Rtr, K::Jsr, K::Bsr, K::Chk, K::Addq, K::Subq, K::Scc, K::Or,
    K::Divu, K::Sbcd, K::Sub, K::Suba, K::Subx, K::Cmp, K::Cmpa, K::Cmpm, K::Eor, K::And, K::Muls, K::Abcd, K::Add, K::Adda, K::Addx, K::Asm, K::Lsm, K::Roxm, K::Rom, K::Rte,
];
const EXTK: &[K] = &[
    K::OriCcr, K::AndiSr, K::Ori, K::Andi, K::Subi, K::Addi, K::Eori, K::Cmpi, K::Btst, K::Bset, K::Movep, K::Move, K::Move, K::Movem, K::Link, K::Stop, K::Dbcc, K::Bra, K::Bsr,
    K::Bcc, K::Jmp, K::Jsr, K::Lea, K::Pea,
];

pub const ALL: std::ops::RangeInclusive<u32> = 1..=25;

pub fn plan(prop: u32) -> Plan {
    let b = BASE;
    let calm = Prof { name: "calm", fault: 0, odd: 2, wild: 5, exc: 25, edge: 2, delay: 20, ..b };
    let busy = Prof { name: "busy", exc: 350, burst: 500, fault: 25, edge: 20, trace: 80, focus: TRAPS, focus_pm: 300, ..b };
    let faults = Prof { name: "faults", fault: 350, sticky: 150, wild: 60, edge: 30, ..b };
    let q = |quick: u64, profs, trigger| Plan { quick: quick * 6, thorough: quick * 150, profs, lin: false, trigger };
    match prop {
        1 => q(
            40_000,
            vec![
                (5, calm),
                (2, b),
                (1, Prof { name: "interrupted", exc: 250, burst: 200, ..calm }),
            ],
            &[],
        ),
        2 => q(
            30_000,
            vec![
                (4, Prof { next: 20, ..faults }),
                (2, Prof { name: "memory faults", focus: MEMK, focus_pm: 800, ..faults }),
                (2, Prof { name: "extension faults", focus: EXTK, focus_pm: 700, ..faults }),
                (1, Prof { name: "faults in exceptions", exc: 300, burst: 300, edge: 80, ..faults }),
                (1, Prof { name: "long outages", sticky: 700, ..faults }),
            ],
            &["fault: opcode fetch refused", "fault: extension word refused", "fault: operand read or pop refused", "fault: operand write or push refused", "fault: exception stacking refused", "fault: vector fetch refused"],
        ),
        3 => q(
            30_000,
            vec![
                (3, Prof { name: "misaligned", odd: 300, next: 40, wild: 40, edge: 50, ..b }),
                (2, Prof { name: "misaligned memory operands", odd: 400, focus: MEMK, focus_pm: 900, ..b }),
                (1, Prof { name: "misaligned and refused", odd: 250, next: 20, fault: 150, edge: 80, exc: 200, ..b }),
            ],
            &["fault: odd program counter", "fault: misaligned operand or stack", "fault: misaligned exception stack or vector"],
        ),
        4 => q(
            30_000,
            vec![
                (3, Prof { name: "interrupts", exc: 350, burst: 400, pool: [40, 30, 4, 2, 0, 1, 1, 0], focus: SRK, focus_pm: 350, mask_low: 100, ..b }),
                (1, Prof { name: "interrupts in user mode", exc: 350, user: 700, pool: [40, 30, 4, 2, 0, 1, 1, 0], mask_low: 200, ..b }),
                (1, Prof { name: "interrupts, traps and faults", fault: 60, edge: 20, mask_low: 150, ..busy }),
            ],
            &["interrupts taken"],
        ),
        5 => q(
            30_000,
            vec![
                (3, busy),
                (2, Prof { name: "all at once", burst: 900, exc: 300, pool: [20, 20, 15, 25, 1, 6, 4, 4], mask_low: 150, ..busy }),
                (1, Prof { name: "busy with faults", fault: 120, edge: 40, odd: 30, ..busy }),
                (1, Prof { name: "busy with trace and stop", trace: 300, stop: 30, focus: SRK, ..busy }),
            ],
            &["boundaries with several exceptions taken", "interrupts taken"],
        ),
        6 => q(
            30_000,
            vec![
                (3, Prof { name: "simultaneous", burst: 950, exc: 400, pool: [25, 25, 8, 25, 3, 8, 3, 3], mask_low: 300, ..busy }),
                (2, Prof { name: "simultaneous with trace", trace: 400, burst: 800, exc: 350, ..busy }),
                (2, Prof { name: "unstackable", fault: 250, edge: 150, odd: 60, burst: 600, exc: 350, vecpoke: 20, ..busy }),
            ],
            &["boundaries with several exceptions taken", "exceptions whose stacking failed"],
        ),
        7 => q(
            30_000,
            vec![
                (3, Prof { name: "stop", stop: 300, focus: STOPS, focus_pm: 450, exc: 250, user: 150, mask_low: 250, loops: 80, ..b }),
                (1, Prof { name: "stop with faults and trace", stop: 300, focus: STOPS, focus_pm: 450, exc: 250, user: 200, trace: 200, fault: 60, reset: 20, loops: 40, ..b }),
            ],
            &["steps of a stopped core", "run loops entered while stopped"],
        ),
        8 => q(
            30_000,
            vec![
                (2, Prof { name: "resets", reset: 150, fresh: 60, exc: 200, burst: 300, stop: 60, user: 400, trace: 150, ..b }),
                (1, Prof { name: "resets under stress", reset: 120, fresh: 40, stop: 150, focus: STOPS, focus_pm: 300, fault: 100, edge: 50, odd: 40, exc: 200, ..b }),
            ],
            &["resets processed"],
        ),
        9 => q(
            30_000,
            vec![
                (3, Prof { name: "frames", exc: 200, burst: 150, focus: TRAPS, focus_pm: 600, trace: 100, vecpoke: 10, ..b }),
                (2, Prof { name: "frames of faults", exc: 100, fault: 200, odd: 100, edge: 20, ..b }),
                (1, Prof { name: "privilege frames", user: 800, focus: PRIV, focus_pm: 500, ..b }),
            ],
            &["interrupts taken", "other exceptions taken", "access or address errors taken", "trace exceptions taken"],
        ),
        10 => q(
            30_000,
            vec![
                (3, Prof { name: "user code", user: 950, focus: USERK, focus_pm: 500, junk: 60, exc: 60, ..b }),
                (1, Prof { name: "user code under stress", user: 900, focus: USERK, focus_pm: 400, junk: 100, exc: 200, fault: 100, odd: 60, edge: 20, trace: 100, ..b }),
            ],
            &[],
        ),
        11 => q(
            30_000,
            vec![
                (3, Prof { name: "traced", trace: 600, exc: 60, ..b }),
                (1, Prof { name: "traced with interrupts", trace: 600, exc: 300, burst: 300, focus: SRK, focus_pm: 300, ..b }),
                (1, Prof { name: "traced traps and faults", trace: 600, fault: 100, odd: 60, focus: TRAPS, focus_pm: 300, ..b }),
            ],
            &["trace exceptions taken"],
        ),
        12 => q(
            16_000,
            vec![
                (2, Prof { name: "loops", loops: 350, exc: 100, stop: 20, turns: 80, ..calm }),
                (1, Prof { name: "loops with stop", loops: 350, exc: 200, stop: 300, focus: STOPS, focus_pm: 150, turns: 80, ..b }),
                (1, Prof { name: "loops with faults", loops: 300, exc: 150, fault: 80, sticky: 500, edge: 20, odd: 30, trace: 80, turns: 80, ..b }),
            ],
            &["cycle() runs", "cycle_until_exception() runs", "loop_until_exception_stop() runs"],
        ),
        13 => q(
            12_000,
            vec![
                (2, Prof { name: "disassembling", twin: TwinMode::Dis, api: [50, 50, 0, 0], exc: 100, loops: 10, next: 10, ..b }),
                (2, Prof { name: "disassembling with faults", twin: TwinMode::Dis, api: [40, 40, 10, 10], ..faults }),
                (1, Prof { name: "disassembling busy", twin: TwinMode::Dis, api: [40, 40, 10, 10], stop: 40, reset: 15, odd: 50, junk: 100, ..busy }),
            ],
            &[],
        ),
        14 => q(
            12_000,
            vec![
                (2, Prof { name: "C interface", twin: TwinMode::Ffi, api: [25, 25, 25, 25], exc: 120, loops: 50, next: 50, fresh: 10, pool: [40, 20, 5, 20, 2, 5, 5, 0], ..b }),
                (1, Prof { name: "C interface with faults", twin: TwinMode::Ffi, api: [25, 25, 25, 25], loops: 30, next: 50, stop: 30, ..faults }),
            ],
            &[],
        ),
        15 => q(
            10_000,
            vec![
                (1, Prof { name: "clones and neighbours", twin: TwinMode::Det, snap: 40, noise: 250, exc: 150, loops: 20, fresh: 6, stop: 30, fault: 40, trace: 60, ..b }),
                (1, Prof { name: "clones under stress", twin: TwinMode::Det, snap: 60, noise: 250, loops: 10, stop: 60, fault: 60, ..busy }),
            ],
            &["unrelated core interleaved", "snapshot taken"],
        ),
        16 => Plan {
            lin: true,
            ..q(
                12_000,
                vec![
                    (1, Prof { name: "slices", twin: TwinMode::Slice, wild: 180, acc: 300, edge: 30, exc: 60, fault: 0, ..b }),
                    (1, Prof { name: "slices, memory operands", twin: TwinMode::Slice, wild: 300, acc: 300, edge: 30, focus: MEMK, focus_pm: 900, fault: 0, ..b }),
                ],
                &[],
            )
        },
        17 => q(
            40_000,
            vec![
                (3, Prof { name: "junk", junk: 800, odd: 60, wild: 80, exc: 80, delay: 100, vecpoke: 15, fault: 15, ..b }),
                (1, Prof { name: "hostile", junk: 500, odd: 200, wild: 300, edge: 60, exc: 150, burst: 300, pool: [20, 20, 20, 20, 2, 5, 5, 20], vecpoke: 60, fault: 60, stop: 30, loops: 20, next: 10, ..b }),
                (1, Prof { name: "every opcode", junk: 0, odd: 20, wild: 40, ..b }),
                (1, Prof { name: "not instructions", focus: &[K::Unknown, K::Unknown, K::LineA, K::LineF, K::Illegal], focus_pm: 600, ..b }),
            ],
            &[],
        ),
        18 => q(
            40_000,
            vec![
                (3, Prof { name: "timing", ..calm }),
                (1, Prof { name: "timing of exceptions", exc: 250, focus: TRAPS, focus_pm: 300, trace: 60, ..b }),
                (1, Prof { name: "timing of memory operands", focus: MEMK, focus_pm: 900, ..calm }),
            ],
            &[],
        ),
        19 => q(12_000, vec![(1, Prof { name: "programs", twin: TwinMode::Prog, ..b })], &["interrupts taken"]),
        20 => q(
            40_000,
            vec![
                (3, Prof { name: "devices", focus: MEMK, focus_pm: 850, ..calm }),
                (1, Prof { name: "devices with interrupts and faults", next: 20, focus: MEMK, focus_pm: 600, fault: 60, exc: 150, ..b }),
                (1, Prof { name: "reset line", focus: &[K::Reset, K::Reset, K::AndiSr, K::MoveToSr, K::Rte], focus_pm: 400, user: 500, ..b }),
            ],
            &[],
        ),
        21 => q(
            24_000,
            vec![
                (4, Prof { name: "assembled code", asm: true, ..calm }),
                (1, Prof { name: "assembled code under stress", asm: true, odd: 30, fault: 60, ..busy }),
            ],
            &["instructions assembled and decoded"],
        ),
        22 => q(
            24_000,
            vec![
                (3, Prof { name: "status register", focus: SRX, focus_pm: 700, user: 200, exc: 60, ..calm }),
                (1, Prof { name: "status register under stress", focus: SRX, focus_pm: 500, trace: 100, junk: 100, ..busy }),
            ],
            &["status registers with bits that do not exist"],
        ),
        23 => q(
            12_000,
            vec![
                (3, Prof { name: "every instruction's text", twin: TwinMode::Dis, api: [25, 25, 25, 25], junk: 300, ..calm }),
                (1, Prof { name: "every instruction's text, with faults and interrupts", twin: TwinMode::Dis, api: [25, 25, 25, 25], junk: 150, odd: 30, exc: 150, ..faults }),
                (2, Prof { name: "texts of instructions not executed", decode: 900, api: [15, 15, 35, 35], junk: 400, wild: 200, edge: 40, exc: 100, next: 15, ..b }),
            ],
            &["texts compared with the encoding", "decoded texts compared with the encoding"],
        ),
        24 => q(
            30_000,
            vec![
                (3, Prof { name: "debugger", decode: 700, api: [15, 15, 35, 35], odd: 30, ..b }),
                (2, Prof { name: "debugger, longer instructions", decode: 700, api: [15, 15, 35, 35], focus: EXTK, focus_pm: 700, fault: 60, sticky: 300, ..b }),
                (1, Prof { name: "debugger anywhere", decode: 900, api: [15, 15, 35, 35], junk: 400, odd: 120, wild: 200, edge: 40, exc: 150, next: 15, ..b }),
            ],
            &["decode: several words", "decode: extension word refused", "decode: opcode refused"],
        ),
        25 => q(
            12_000,
            vec![
                (2, Prof { name: "lifetimes", storm: 14, twin: TwinMode::Heap, api: [25, 25, 25, 25], snap: 30, fresh: 20, loops: 20, exc: 100, ..b }),
                (1, Prof { name: "lifetimes under stress", storm: 14, twin: TwinMode::Heap, api: [25, 25, 25, 25], snap: 30, fresh: 15, loops: 20, stop: 40, reset: 20, odd: 30, fault: 80, junk: 100, ..busy }),
            ],
            &["core given up"],
        ),
        _ => panic!("no such property"),
    }
}

/// The decode table of the tree must classify opcodes as the model does (a reading aid, not a check).
pub fn decode_diff() -> Vec<u16> {
    use m68000::isa::Isa;
    let name = |k: K| format!("{k:?}").to_lowercase();
    (0..=0xFFFFu16)
        .filter(|op| {
            let t = format!("{:?}", Isa::from(*op)).to_lowercase();
            let k = name(kind(*op));
            let k = match k.as_str() {
                "linea" | "linef" | "illegal" | "unknown" => "unknown".to_string(),
                x => x.to_string(),
            };
            t != k && !(t.starts_with(&k) || k.starts_with(&t))
        })
        .collect()
}
