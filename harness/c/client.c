/* A C program's side of the C interface, as the shipped headers declare it.
   Loaded by the harness (src/client.rs), which knows none of the headers' types. */
#include "m68000/m68000-ffi.h"

#include <stdint.h>
#include <stdio.h>
#include <string.h>

/* What the harness gives: its memory, and the accesses to it (1: done, 0: refused). */
typedef struct host {
    void *memory;
    int (*read)(void *memory, uint32_t addr, int size, uint32_t *value);
    int (*write)(void *memory, uint32_t addr, int size, uint32_t value);
    void (*reset)(void *memory);
} host;

static m68000_memory_result_t done(uint32_t data) { return (m68000_memory_result_t) { .data = data, .exception = 0 }; }
static m68000_memory_result_t refused(uint32_t data) { return (m68000_memory_result_t) { .data = data, .exception = 2 }; }
/* The unused bits of a result are not zero. */
static m68000_memory_result_t get(uint32_t addr, void *user_data, int size, uint32_t unused)
{
    host *h = user_data;
    uint32_t v = 0;
    return h->read(h->memory, addr, size, &v) ? done(v | unused) : refused(0x5A5A5A5A);
}
static m68000_memory_result_t set(uint32_t addr, uint32_t data, void *user_data, int size)
{
    host *h = user_data;
    return h->write(h->memory, addr, size, data) ? done(0xA5A5A5A5) : refused(0);
}
static m68000_memory_result_t get_byte(uint32_t addr, void *user_data) { return get(addr, user_data, 1, 0xA5A5A500); }
static m68000_memory_result_t get_word(uint32_t addr, void *user_data) { return get(addr, user_data, 2, 0xA5A50000); }
static m68000_memory_result_t get_long(uint32_t addr, void *user_data) { return get(addr, user_data, 4, 0); }
static m68000_memory_result_t set_byte(uint32_t addr, uint8_t data, void *user_data) { return set(addr, data, user_data, 1); }
static m68000_memory_result_t set_word(uint32_t addr, uint16_t data, void *user_data) { return set(addr, data, user_data, 2); }
static m68000_memory_result_t set_long(uint32_t addr, uint32_t data, void *user_data) { return set(addr, data, user_data, 4); }
static void reset_instruction(void *user_data) { host *h = user_data; h->reset(h->memory); }

static m68000_callbacks_t callbacks(host *h)
{
    return (m68000_callbacks_t) {
        .get_byte = get_byte,
        .get_word = get_word,
        .get_long = get_long,
        .set_byte = set_byte,
        .set_word = set_word,
        .set_long = set_long,
        .reset_instruction = reset_instruction,
        .user_data = h,
    };
}

/* The vectors by name. */
static const struct { const char *name; m68000_vector_t vector; } VECTORS[] = {
#define V(n) { #n, n }
    V(ResetSspPc), V(AccessError), V(AddressError), V(IllegalInstruction), V(ZeroDivide), V(ChkInstruction), V(TrapVInstruction), V(PrivilegeViolation), V(Trace),
    V(LineAEmulator), V(LineFEmulator), V(FormatError), V(UninitializedInterrupt), V(SpuriousInterrupt), V(Level1Interrupt), V(Level2Interrupt), V(Level3Interrupt),
    V(Level4Interrupt), V(Level5Interrupt), V(Level6Interrupt), V(Level7Interrupt), V(Trap0Instruction), V(Trap1Instruction), V(Trap2Instruction), V(Trap3Instruction),
    V(Trap4Instruction), V(Trap5Instruction), V(Trap6Instruction), V(Trap7Instruction), V(Trap8Instruction), V(Trap9Instruction), V(Trap10Instruction), V(Trap11Instruction),
    V(Trap12Instruction), V(Trap13Instruction), V(Trap14Instruction), V(Trap15Instruction), V(Level1OnChipInterrupt), V(Level2OnChipInterrupt), V(Level3OnChipInterrupt),
    V(Level4OnChipInterrupt), V(Level5OnChipInterrupt), V(Level6OnChipInterrupt), V(Level7OnChipInterrupt), V(UserInterrupt),
#undef V
};
/* The name and the number of the i-th; NULL after the last. */
const char *client_vector(size_t i, int *number)
{
    if (i >= sizeof VECTORS / sizeof VECTORS[0])
        return NULL;
    *number = (int) VECTORS[i].vector;
    return VECTORS[i].name;
}

static void flat(const m68000_registers_t *r, uint32_t l[18], uint16_t *sr)
{
    int i;
    for (i = 0; i < 8; i++)
        l[i] = r->d[i];
    for (i = 0; i < 7; i++)
        l[8 + i] = r->a[i];
    l[15] = r->usp;
    l[16] = r->ssp;
    l[17] = r->pc;
    *sr = (uint16_t) (r->sr.t << 15 | r->sr.s << 13 | r->sr.interrupt_mask << 8 | r->sr.x << 4 | r->sr.n << 3 | r->sr.z << 2 | r->sr.v << 1 | r->sr.c);
}
static void structured(m68000_registers_t *r, const uint32_t l[18], uint16_t sr)
{
    int i;
    for (i = 0; i < 8; i++)
        r->d[i] = l[i];
    for (i = 0; i < 7; i++)
        r->a[i] = l[8 + i];
    r->usp = l[15];
    r->ssp = l[16];
    r->pc = l[17];
    r->sr = (m68000_status_register_t) { .t = sr >> 15 & 1, .s = sr >> 13 & 1, .interrupt_mask = sr >> 8 & 7, .x = sr >> 4 & 1, .n = sr >> 3 & 1, .z = sr >> 2 & 1, .v = sr >> 1 & 1, .c = sr & 1 };
}

/* The result of a call. */
typedef struct result {
    size_t cycles;
    uint32_t pc;
    uint32_t value;
    uint8_t vector;
} result;

#define CLIENT(cpu) \
    void *client_##cpu##_new(int reset) { return reset ? m68000_##cpu##_new() : m68000_##cpu##_new_no_reset(); } \
    void client_##cpu##_delete(void *core) { m68000_##cpu##_delete(core); } \
    void client_##cpu##_set(void *core, const uint32_t l[18], uint16_t sr, int whole) \
    { \
        if (whole) { \
            m68000_registers_t r = m68000_##cpu##_get_registers(core); \
            structured(&r, l, sr); \
            m68000_##cpu##_set_registers(core, r); \
        } else \
            structured(m68000_##cpu##_registers_mut(core), l, sr); \
    } \
    void client_##cpu##_get(void *core, uint32_t l[18], uint16_t *sr, int how) \
    { \
        m68000_registers_t r = m68000_##cpu##_get_registers(core); \
        flat(how == 0 ? &r : how == 1 ? m68000_##cpu##_registers(core) : m68000_##cpu##_registers_mut(core), l, sr); \
    } \
    void client_##cpu##_exception(void *core, int number, const char *name) \
    { \
        size_t i; \
        for (i = 0; i < sizeof VECTORS / sizeof VECTORS[0]; i++) \
            if (strcmp(VECTORS[i].name, name) == 0) \
                m68000_##cpu##_exception(core, VECTORS[i].vector); \
        (void) number; \
    } \
    void client_##cpu##_call(void *core, host *h, int kind, size_t n, char *text, size_t len, result *out) \
    { \
        m68000_callbacks_t cb = callbacks(h); \
        *out = (result) { 0 }; \
        switch (kind) { \
        case 'i': out->cycles = m68000_##cpu##_interpreter(core, &cb); break; \
        case 'N': out->cycles = m68000_##cpu##_cycle(core, &cb, n); break; \
        case 'e': case 'U': case 'L': { \
            m68000_exception_result_t r = kind == 'e' ? m68000_##cpu##_interpreter_exception(core, &cb) \
                : kind == 'U' ? m68000_##cpu##_cycle_until_exception(core, &cb, n) : m68000_##cpu##_loop_until_exception_stop(core, &cb); \
            out->cycles = r.cycles; out->vector = r.exception; break; } \
        case 'd': { \
            m68000_disassembler_result_t r = m68000_##cpu##_disassembler_interpreter(core, &cb, text, len); \
            out->cycles = r.cycles; out->pc = r.pc; break; } \
        case 'D': { \
            m68000_disassembler_exception_result_t r = m68000_##cpu##_disassembler_interpreter_exception(core, &cb, text, len); \
            out->cycles = r.cycles; out->pc = r.pc; out->vector = r.exception; break; } \
        default: { \
            m68000_memory_result_t r = kind == 'w' ? m68000_##cpu##_get_next_word(core, &cb) \
                : kind == 'l' ? m68000_##cpu##_get_next_long(core, &cb) : m68000_##cpu##_peek_next_word(core, &cb); \
            out->value = r.data; out->vector = r.exception; break; } \
        } \
    }
CLIENT(mc68000)
CLIENT(scc68070)

/* ---- An instruction of the library, described as spec/Operands.tla does ---- */

static char *o;
static void u(unsigned v) { o += sprintf(o, ",%u", v); }
static void l(uint32_t v) { o += sprintf(o, ",[%u,%u]", (unsigned) (v >> 16), (unsigned) (v & 0xFFFF)); }
static void sz(m68000_size_t s) { o += sprintf(o, ",%d", s == Byte ? 1 : s == Word ? 2 : s == Long ? 4 : -1); }
static void dir(m68000_direction_t d)
{
    const char *s = "?";
    switch (d) {
    case RegisterToMemory: s = "r2m"; break;
    case MemoryToRegister: s = "m2r"; break;
    case DstReg: s = "reg"; break;
    case DstEa: s = "ea"; break;
    case Left: s = "L"; break;
    case Right: s = "R"; break;
    case RegisterToUsp: s = "r2u"; break;
    case UspToRegister: s = "u2r"; break;
    case RegisterToRegister: s = "rr"; break;
    case MemoryToMemory: s = "mm"; break;
    case ExchangeData: s = "xd"; break;
    case ExchangeAddress: s = "xa"; break;
    case ExchangeDataAddress: s = "xda"; break;
    }
    o += sprintf(o, ",\"%s\"", s);
}
static void am(m68000_addressing_mode_t a)
{
    unsigned hi, lo;
    switch (a.tag) {
    case Drd: o += sprintf(o, ",[0,%u]", a.drd); break;
    case Ard: o += sprintf(o, ",[1,%u]", a.ard); break;
    case Ari: o += sprintf(o, ",[2,%u]", a.ari); break;
    case Ariwpo: o += sprintf(o, ",[3,%u]", a.ariwpo); break;
    case Ariwpr: o += sprintf(o, ",[4,%u]", a.ariwpr); break;
    case Ariwd: o += sprintf(o, ",[5,%u,%u]", a.ariwd._0, (uint16_t) a.ariwd._1); break;
    case Ariwi8: o += sprintf(o, ",[6,%u,%u]", a.ariwi8._0, a.ariwi8._1._0); break;
    case AbsShort: o += sprintf(o, ",[7,0,%u]", a.abs_short); break;
    case AbsLong: hi = a.abs_long >> 16; lo = a.abs_long & 0xFFFF; o += sprintf(o, ",[7,1,%u,%u]", hi, lo); break;
    case Pciwd: hi = a.pciwd._0 >> 16; lo = a.pciwd._0 & 0xFFFF; o += sprintf(o, ",[7,2,%u,%u,%u]", (uint16_t) a.pciwd._1, hi, lo); break;
    case Pciwi8: hi = a.pciwi8._0 >> 16; lo = a.pciwi8._0 & 0xFFFF; o += sprintf(o, ",[7,3,%u,%u,%u]", a.pciwi8._1._0, hi, lo); break;
    case Immediate: hi = a.immediate >> 16; lo = a.immediate & 0xFFFF; o += sprintf(o, ",[7,4,%u,%u]", hi, lo); break;
    default: o += sprintf(o, ",[]");
    }
}
/* Writes the description, of less than 400 bytes, and tells the opcode and the address. */
void client_instruction(const void *instruction, char *description, uint16_t *opcode, uint32_t *pc)
{
    const m68000_instruction_t *i = instruction;
    const m68000_operands_t *p = &i->operands;
    *opcode = i->opcode;
    *pc = i->pc;
    o = description;
#define NAME(n) case n: o += sprintf(o, "[\"%s\"", #n);
    switch (p->tag) {
    NAME(NoOperands) break;
    case Immediate_: o += sprintf(o, "[\"Immediate\""); u(p->immediate); break;
    NAME(SizeEffectiveAddressImmediate) sz(p->size_effective_address_immediate._0); am(p->size_effective_address_immediate._1); l(p->size_effective_address_immediate._2); break;
    NAME(EffectiveAddressCount) am(p->effective_address_count._0); u(p->effective_address_count._1); break;
    NAME(EffectiveAddress) am(p->effective_address); break;
    NAME(SizeEffectiveAddress) sz(p->size_effective_address._0); am(p->size_effective_address._1); break;
    NAME(RegisterEffectiveAddress) u(p->register_effective_address._0); am(p->register_effective_address._1); break;
    NAME(RegisterDirectionSizeRegisterDisplacement) u(p->register_direction_size_register_displacement._0); dir(p->register_direction_size_register_displacement._1);
        sz(p->register_direction_size_register_displacement._2); u(p->register_direction_size_register_displacement._3);
        u((uint16_t) p->register_direction_size_register_displacement._4); break;
    NAME(SizeRegisterEffectiveAddress) sz(p->size_register_effective_address._0); u(p->size_register_effective_address._1); am(p->size_register_effective_address._2); break;
    NAME(SizeEffectiveAddressEffectiveAddress) sz(p->size_effective_address_effective_address._0); am(p->size_effective_address_effective_address._1);
        am(p->size_effective_address_effective_address._2); break;
    NAME(RegisterOpmodeRegister) u(p->register_opmode_register._0); dir(p->register_opmode_register._1); u(p->register_opmode_register._2); break;
    NAME(OpmodeRegister) u(p->opmode_register._0); u(p->opmode_register._1); break;
    NAME(Vector) u(p->vector); break;
    NAME(RegisterDisplacement) u(p->register_displacement._0); u((uint16_t) p->register_displacement._1); break;
    NAME(Register) u(p->register_); break;
    NAME(DirectionRegister) dir(p->direction_register._0); u(p->direction_register._1); break;
    NAME(DirectionSizeEffectiveAddressList) dir(p->direction_size_effective_address_list._0); sz(p->direction_size_effective_address_list._1);
        am(p->direction_size_effective_address_list._2); u(p->direction_size_effective_address_list._3); break;
    NAME(DataSizeEffectiveAddress) u(p->data_size_effective_address._0); sz(p->data_size_effective_address._1); am(p->data_size_effective_address._2); break;
    NAME(ConditionEffectiveAddress) u(p->condition_effective_address._0); am(p->condition_effective_address._1); break;
    NAME(ConditionRegisterDisplacement) u(p->condition_register_displacement._0); u(p->condition_register_displacement._1);
        u((uint16_t) p->condition_register_displacement._2); break;
    NAME(Displacement) u((uint16_t) p->displacement); break;
    NAME(ConditionDisplacement) u(p->condition_displacement._0); u((uint16_t) p->condition_displacement._1); break;
    NAME(RegisterData) u(p->register_data._0); u((uint8_t) p->register_data._1); break;
    NAME(RegisterDirectionSizeEffectiveAddress) u(p->register_direction_size_effective_address._0); dir(p->register_direction_size_effective_address._1);
        sz(p->register_direction_size_effective_address._2); am(p->register_direction_size_effective_address._3); break;
    NAME(RegisterSizeEffectiveAddress) u(p->register_size_effective_address._0); sz(p->register_size_effective_address._1); am(p->register_size_effective_address._2); break;
    NAME(RegisterSizeModeRegister) u(p->register_size_mode_register._0); sz(p->register_size_mode_register._1); dir(p->register_size_mode_register._2);
        u(p->register_size_mode_register._3); break;
    NAME(RegisterSizeRegister) u(p->register_size_register._0); sz(p->register_size_register._1); u(p->register_size_register._2); break;
    NAME(DirectionEffectiveAddress) dir(p->direction_effective_address._0); am(p->direction_effective_address._1); break;
    NAME(RotationDirectionSizeModeRegister) u(p->rotation_direction_size_mode_register._0); dir(p->rotation_direction_size_mode_register._1);
        sz(p->rotation_direction_size_mode_register._2); u(p->rotation_direction_size_mode_register._3); u(p->rotation_direction_size_mode_register._4); break;
    default: o += sprintf(o, "[");
    }
    sprintf(o, "]");
}

/* The size and the number of the elements of the types, in the order of src/client.rs. */
size_t client_size(size_t i)
{
    const size_t sizes[] = { sizeof(m68000_registers_t), sizeof(m68000_status_register_t), sizeof(m68000_vector_t), sizeof(m68000_size_t), sizeof(m68000_direction_t),
        sizeof(m68000_brief_extension_word_t), sizeof(m68000_addressing_mode_t), sizeof(m68000_operands_t), sizeof(m68000_instruction_t), sizeof(m68000_callbacks_t),
        sizeof(m68000_memory_result_t), sizeof(m68000_exception_result_t), sizeof(m68000_disassembler_result_t), sizeof(m68000_disassembler_exception_result_t) };
    return i < sizeof sizes / sizeof sizes[0] ? sizes[i] : 0;
}

uint16_t client_default_sr(void) { return m68000_status_register_t_DEFAULT; }
