// Harness interface of the symbolic execution engine (see DESIGN.md, "Engine").
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
extern "C" {
// a symbolic integer in [lo,hi]
long symx_int(const char* name, long lo, long hi);
// a symbolic double: n/2^k with n a symbolic integer in [lo*2^k, hi*2^k]
double symx_real(const char* name, long lo, long hi, int k);
// like symx_int, but one path per value is explored (structure choices: sizes, operation kinds)
long symx_choice(const char* name, long lo, long hi);
void symx_fail(const char* msg) __attribute__((noreturn));
void symx_prune(void) __attribute__((noreturn));
void symx_done(void) __attribute__((noreturn));
void symx_reach(const char* tag);
void symx_note_assert(void);
void symx_observe(const char* tag, double v);
void symx_note(const char* fmt, ...);
int  symx_replaying(void);
int  symx_thorough(void);
}
#define sym_int symx_int
#define sym_real symx_real
#define sym_choice symx_choice
#define sym_bool(n) (symx_int(n,0,1)!=0)
#define sym_reach symx_reach
#define sym_assume(c) do{ if(!(c)) symx_prune(); }while(0)
#define sym_assert(c,msg) do{ symx_note_assert(); if(!(c)) symx_fail(msg); }while(0)
// provided by each harness
extern "C" void sym_setup();
extern "C" void sym_main();
#endif
