/* Turns deliberate stops of the code under test (failed assert(), exit(), abort()) into an observable event.
   Link with -Wl,--wrap=exit,--wrap=abort */
#ifndef VH_TRAP_H
#define VH_TRAP_H
#include <setjmp.h>
#include "vh.h"
namespace vh {
static jmp_buf trap_jb; static volatile bool trap_on = false; static std::string trap_what; static int trap_code = 0;
static void trap_hit(const char *w) { if (!trap_on) { fprintf(stderr, "VH-STOP outside a guarded call: %s\n", w); _exit(99); } trap_what = w; trap_on = false; longjmp(trap_jb, 1); }
}
extern "C" {
void __real_exit(int) __attribute__((noreturn)); void __real_abort(void) __attribute__((noreturn));
void __assert_fail(const char *a, const char *f, unsigned l, const char *fn) { char b[400]; const char *s = strrchr(f, '/'); snprintf(b, sizeof b, "assert %s: %s (%s)", s ? s + 1 : f, a, fn); vh::trap_hit(b); for (;;); }
void __wrap_exit(int c) { vh::trap_code = c; if (vh::trap_on) vh::trap_hit("exit"); __real_exit(c); }
void __wrap_abort(void) { if (vh::trap_on) vh::trap_hit("abort"); __real_abort(); }
}
/* GUARDED(stmt): true if stmt ran to completion, false if the code under test stopped on purpose */
#define GUARDED(stmt) (vh::trap_what.clear(), setjmp(vh::trap_jb) ? false : (vh::trap_on = true, ([&]() { stmt; })(), vh::trap_on = false, true))
#endif
