/* Calls a function with chosen contents of every register and checks the state
 * it comes back with.  Not thread safe (static storage). */
#pragma once
#include <cstdint>
extern "C" {
uint64_t tr_fn, tr_args[14], tr_in[6], tr_vol[4], tr_out[6], tr_ret, tr_flags, tr_sp_in, tr_sp_out, tr_sp0, tr_xmm[32];
uint32_t tr_mx_in, tr_mx_out, tr_cw_in, tr_cw_out, tr_mx0, tr_cw0, tr_env[8];
uint64_t tramp64();
}
asm(R"(
    .text
    .globl tramp64
    .type tramp64,@function
tramp64:
    pushq %rbx
    pushq %rbp
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    movq %rsp, tr_sp0(%rip)
    stmxcsr tr_mx0(%rip)
    fnstcw tr_cw0(%rip)
    ldmxcsr tr_mx_in(%rip)
    fldcw tr_cw_in(%rip)
    subq $64, %rsp
    movq %rsp, %rdi
    leaq tr_args(%rip), %rsi
    addq $48, %rsi
    movl $8, %ecx
    cld
    rep movsq
    movq %rsp, tr_sp_in(%rip)
    leaq tr_xmm(%rip), %rax
    movups 0(%rax), %xmm0
    movups 16(%rax), %xmm1
    movups 32(%rax), %xmm2
    movups 48(%rax), %xmm3
    movups 64(%rax), %xmm4
    movups 80(%rax), %xmm5
    movups 96(%rax), %xmm6
    movups 112(%rax), %xmm7
    movups 128(%rax), %xmm8
    movups 144(%rax), %xmm9
    movups 160(%rax), %xmm10
    movups 176(%rax), %xmm11
    movups 192(%rax), %xmm12
    movups 208(%rax), %xmm13
    movups 224(%rax), %xmm14
    movups 240(%rax), %xmm15
    leaq tr_args(%rip), %rax
    movq 0(%rax), %rdi
    movq 8(%rax), %rsi
    movq 16(%rax), %rdx
    movq 24(%rax), %rcx
    movq 32(%rax), %r8
    movq 40(%rax), %r9
    leaq tr_in(%rip), %rax
    movq 0(%rax), %rbx
    movq 8(%rax), %rbp
    movq 16(%rax), %r12
    movq 24(%rax), %r13
    movq 32(%rax), %r14
    movq 40(%rax), %r15
    leaq tr_vol(%rip), %rax
    movq 8(%rax), %r10
    movq 16(%rax), %r11
    movq 0(%rax), %rax
    call *tr_fn(%rip)
    movq %rax, tr_ret(%rip)
    movq %rsp, tr_sp_out(%rip)
    movq tr_sp0(%rip), %rsp
    pushfq
    popq tr_flags(%rip)
    cld
    leaq tr_out(%rip), %rax
    movq %rbx, 0(%rax)
    movq %rbp, 8(%rax)
    movq %r12, 16(%rax)
    movq %r13, 24(%rax)
    movq %r14, 32(%rax)
    movq %r15, 40(%rax)
    stmxcsr tr_mx_out(%rip)
    fnstcw tr_cw_out(%rip)
    fnstenv tr_env(%rip)
    fninit
    fldcw tr_cw0(%rip)
    ldmxcsr tr_mx0(%rip)
    movq tr_ret(%rip), %rax
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbp
    popq %rbx
    ret
    .size tramp64, .-tramp64
)");
/* leave junk where the next call's frames will be */
static void __attribute__((noinline)) junk_stack(int v, size_t n)
{
    volatile uint8_t *p = (volatile uint8_t *)__builtin_alloca(n);
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(v < 0 ? i * 37 + v : v);
}
struct TrampState
{
    bool vary_fp = true; /* also unusual rounding modes (restored afterwards) */
    bool eight = false;  /* all bits of the registers */
};
/* 0 = everything as the calling convention promises; otherwise a bit per broken promise */
template <class F> static inline unsigned
tramp_call(F f, std::initializer_list<uint64_t> args, uint64_t *ret, uint64_t &rs, bool vary_fp)
{
    auto rnd = [&]() { rs += 0x9E3779B97F4A7C15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
    tr_fn = (uint64_t)f;
    int i = 0;
    /* the upper halves of int arguments are undefined by the ABI */
    for (auto a : args) tr_args[i++] = a;
    for (; i < 14; i++) tr_args[i] = rnd();
    for (int k = 0; k < 6; k++) tr_in[k] = rnd();
    for (int k = 0; k < 4; k++) tr_vol[k] = rnd();
    for (int k = 0; k < 32; k++) tr_xmm[k] = rnd();
    tr_mx_in = 0x1f80;
    tr_cw_in = 0x037f;
    if (vary_fp)
    {
        tr_mx_in |= (uint32_t)(rnd() & 3) << 13 | (uint32_t)(rnd() & 1) << 15;
        tr_cw_in = (tr_cw_in & ~0xf00u) | (uint32_t)(rnd() & 3) << 10 | ((rnd() & 1) ? 0x300 : 0x200);
    }
    *ret = tramp64();
    unsigned bad = 0;
    for (int k = 0; k < 6; k++) if (tr_in[k] != tr_out[k]) bad |= 1u << k;
    if ((tr_mx_in ^ tr_mx_out) & 0xffc0) bad |= 1u << 6;
    if ((tr_cw_in ^ tr_cw_out) & 0x0f3f) bad |= 1u << 7;
    if ((tr_env[2] & 0xffff) != 0xffff) bad |= 1u << 8;
    if (tr_flags & 0x400) bad |= 1u << 9;
    if (tr_sp_in != tr_sp_out) bad |= 1u << 10;
    return bad;
}
static inline const char *tramp_what(unsigned bad)
{
    static const char *n[] = {"rbx", "rbp", "r12", "r13", "r14", "r15", "the SSE control register", "the x87 control word",
                              "a non-empty x87 register stack (MMX state not cleared)", "the direction flag", "the stack pointer"};
    for (int i = 0; i < 11; i++) if (bad >> i & 1) return n[i];
    return "nothing";
}
