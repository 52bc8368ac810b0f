/* A host program in C: everything it knows about the library it knows from the shipped headers.
 * The header comes first, as in the examples of the documentation. */
#include "m68000-ffi.h"
#include <stdint.h>
#include <stddef.h>

/* The simulated bus, in Rust: false if refused, with what to answer then. */
extern void sim_read(uint32_t addr, uint8_t size, void *user, uint32_t *data, uint8_t *exception);
extern void sim_write(uint32_t addr, uint8_t size, uint32_t value, void *user, uint32_t *data, uint8_t *exception);
extern void sim_reset(void *user);

#define READ(name, size)                                                       \
    static m68000_memory_result_t name(uint32_t addr, void *user)              \
    {                                                                          \
        m68000_memory_result_t r;                                              \
        uint32_t data;                                                         \
        uint8_t exception;                                                     \
        sim_read(addr, size, user, &data, &exception);                         \
        r.data = data;                                                         \
        r.exception = exception;                                               \
        return r;                                                              \
    }
#define WRITE(name, size, type)                                                \
    static m68000_memory_result_t name(uint32_t addr, type value, void *user)  \
    {                                                                          \
        m68000_memory_result_t r;                                              \
        uint32_t data;                                                         \
        uint8_t exception;                                                     \
        sim_write(addr, size, value, user, &data, &exception);                 \
        r.data = data;                                                         \
        r.exception = exception;                                               \
        return r;                                                              \
    }
READ(get_byte, 1)
READ(get_word, 2)
READ(get_long, 4)
WRITE(set_byte, 1, uint8_t)
WRITE(set_word, 2, uint16_t)
WRITE(set_long, 4, uint32_t)

static m68000_callbacks_t callbacks(void *user)
{
    m68000_callbacks_t c = {
        .get_byte = get_byte,
        .get_word = get_word,
        .get_long = get_long,
        .set_byte = set_byte,
        .set_word = set_word,
        .set_long = set_long,
        .reset_instruction = sim_reset,
        .user_data = user,
    };
    return c;
}

/* By name, in the order of the manual. */
static const m68000_vector_t VECTORS[] = {
    ResetSspPc, AccessError, AddressError, IllegalInstruction, ZeroDivide, ChkInstruction, TrapVInstruction,
    PrivilegeViolation, Trace, LineAEmulator, LineFEmulator, FormatError, UninitializedInterrupt, SpuriousInterrupt,
    Level1Interrupt, Level2Interrupt, Level3Interrupt, Level4Interrupt, Level5Interrupt, Level6Interrupt, Level7Interrupt,
    Trap0Instruction, Trap1Instruction, Trap2Instruction, Trap3Instruction, Trap4Instruction, Trap5Instruction,
    Trap6Instruction, Trap7Instruction, Trap8Instruction, Trap9Instruction, Trap10Instruction, Trap11Instruction,
    Trap12Instruction, Trap13Instruction, Trap14Instruction, Trap15Instruction, Level1OnChipInterrupt,
    Level2OnChipInterrupt, Level3OnChipInterrupt, Level4OnChipInterrupt, Level5OnChipInterrupt, Level6OnChipInterrupt,
    Level7OnChipInterrupt, UserInterrupt,
};

static void unpack(m68000_registers_t r, uint32_t out[26])
{
    for (int i = 0; i < 8; i++)
        out[i] = r.d[i];
    for (int i = 0; i < 7; i++)
        out[8 + i] = r.a[i];
    out[15] = r.usp;
    out[16] = r.ssp;
    out[17] = r.pc;
    out[18] = r.sr.t;
    out[19] = r.sr.s;
    out[20] = r.sr.interrupt_mask;
    out[21] = r.sr.x;
    out[22] = r.sr.n;
    out[23] = r.sr.z;
    out[24] = r.sr.v;
    out[25] = r.sr.c;
}

static m68000_registers_t pack(const uint32_t in[26])
{
    m68000_registers_t r;
    for (int i = 0; i < 8; i++)
        r.d[i] = in[i];
    for (int i = 0; i < 7; i++)
        r.a[i] = in[8 + i];
    r.usp = in[15];
    r.ssp = in[16];
    r.pc = in[17];
    r.sr.t = in[18];
    r.sr.s = in[19];
    r.sr.interrupt_mask = in[20];
    r.sr.x = in[21];
    r.sr.n = in[22];
    r.sr.z = in[23];
    r.sr.v = in[24];
    r.sr.c = in[25];
    return r;
}

/* api: 0 interpreter, 1 interpreter_exception, 2 and 3 the same with disassembly. out: cycles, exception, pc. */
#define HOST(cpu)                                                                                        \
    void *chost_##cpu##_new(int reset)                                                                   \
    {                                                                                                    \
        return reset ? m68000_##cpu##_new() : m68000_##cpu##_new_no_reset();                             \
    }                                                                                                    \
    void chost_##cpu##_delete(void *core)                                                                \
    {                                                                                                    \
        m68000_##cpu##_delete(core);                                                                     \
    }                                                                                                    \
    void chost_##cpu##_exception(void *core, int name)                                                   \
    {                                                                                                    \
        m68000_##cpu##_exception(core, VECTORS[name]);                                                   \
    }                                                                                                    \
    void chost_##cpu##_step(void *core, int api, void *user, char *text, size_t len, uint64_t out[3])    \
    {                                                                                                    \
        m68000_callbacks_t c = callbacks(user);                                                          \
        out[1] = out[2] = 0;                                                                             \
        if (api == 0) {                                                                                  \
            out[0] = m68000_##cpu##_interpreter(core, &c);                                               \
        } else if (api == 1) {                                                                           \
            m68000_exception_result_t r = m68000_##cpu##_interpreter_exception(core, &c);                \
            out[0] = r.cycles;                                                                           \
            out[1] = r.exception;                                                                        \
        } else if (api == 2) {                                                                           \
            m68000_disassembler_result_t r = m68000_##cpu##_disassembler_interpreter(core, &c, text, len); \
            out[0] = r.cycles;                                                                           \
            out[2] = r.pc;                                                                               \
        } else {                                                                                         \
            m68000_disassembler_exception_result_t r =                                                   \
                m68000_##cpu##_disassembler_interpreter_exception(core, &c, text, len);                  \
            out[0] = r.cycles;                                                                           \
            out[1] = r.exception;                                                                        \
            out[2] = r.pc;                                                                               \
        }                                                                                                \
    }                                                                                                    \
    void chost_##cpu##_run(void *core, int kind, void *user, size_t cycles, uint64_t out[2])             \
    {                                                                                                    \
        m68000_callbacks_t c = callbacks(user);                                                          \
        if (kind == 0) {                                                                                 \
            out[0] = m68000_##cpu##_cycle(core, &c, cycles);                                             \
            out[1] = 0;                                                                                  \
        } else {                                                                                         \
            m68000_exception_result_t r = kind == 1 ? m68000_##cpu##_cycle_until_exception(core, &c, cycles) \
                                                    : m68000_##cpu##_loop_until_exception_stop(core, &c); \
            out[0] = r.cycles;                                                                           \
            out[1] = r.exception;                                                                        \
        }                                                                                                \
    }                                                                                                    \
    void chost_##cpu##_next(void *core, int what, void *user, uint32_t out[2])                           \
    {                                                                                                    \
        m68000_callbacks_t c = callbacks(user);                                                          \
        m68000_memory_result_t r = what == 0   ? m68000_##cpu##_get_next_word(core, &c)                  \
                                   : what == 1 ? m68000_##cpu##_get_next_long(core, &c)                  \
                                               : m68000_##cpu##_peek_next_word(core, &c);                \
        out[0] = r.data;                                                                                 \
        out[1] = r.exception;                                                                            \
    }                                                                                                    \
    void chost_##cpu##_get(void *core, int live, uint32_t out[26])                                       \
    {                                                                                                    \
        unpack(live ? *m68000_##cpu##_registers(core) : m68000_##cpu##_get_registers(core), out);        \
    }                                                                                                    \
    void chost_##cpu##_set(void *core, int live, const uint32_t in[26])                                  \
    {                                                                                                    \
        if (live)                                                                                        \
            *m68000_##cpu##_registers_mut(core) = pack(in);                                              \
        else                                                                                             \
            m68000_##cpu##_set_registers(core, pack(in));                                                \
    }

HOST(mc68000)
HOST(scc68070)
