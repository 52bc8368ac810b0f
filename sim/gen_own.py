#!/usr/bin/env python3
"""One-off: wrote src/own.rs, a CPU of the user's own with a different time for everything (see DESIGN.md)."""
import random, re
names = [m[1] for m in re.finditer(r'const (\w+): usize;', open('/repo/m68000/src/cpu_details.rs').read())]
assert len(names) == len(set(names))
r = random.Random(68000)
ea = [n for n in names if n.startswith('EA_') or n.endswith('_COUNT') or n in ('MOVEM_WORD', 'MOVEM_LONG')]
val = dict(zip(ea, r.sample(range(3, 40), len(ea))))
rest = [n for n in names if n not in val]
val.update(zip(rest, r.sample(range(50, 900), len(rest))))
with open('/verif/sim/src/own.rs', 'w') as f:
    f.write('''//! A CPU type of the user's own: every figure of its timing table is different, and it exists with both
//! stack formats. On the two CPUs that come with the crate many figures are equal by accident.
use crate::timing::Tim;

/// Processing time of a vector.
pub fn vector_time(v: u8) -> usize {
    1000 + 7 * v as usize
}

#[cfg(feature = "own")]
#[derive(Clone, Copy, Debug, Default)]
pub struct Own<const SCC: bool>;

macro_rules! own {
    ($($up:ident $low:ident $v:literal;)*) => {
        pub static OWN: Tim = Tim { $($low: $v),* };
        #[cfg(feature = "own")]
        impl<const SCC: bool> m68000::CpuDetails for Own<SCC> {
            const STACK_FORMAT: m68000::StackFormat = if SCC { m68000::StackFormat::SCC68070 } else { m68000::StackFormat::MC68000 };
            fn vector_execution_time(vector: u8) -> usize {
                vector_time(vector)
            }
            $(const $up: usize = $v;)*
        }
    };
}

own! {
''')
    for n in names:
        f.write(f'    {n} {n.lower()} {val[n]};\n')
    f.write('}\n')
