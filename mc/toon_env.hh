// Includes the library under test with std::abort() turned into an exception, so that
// "the program is stopped" is an observable, continuable outcome.
#ifndef TOON_ENV_HH
#define TOON_ENV_HH
#include "mc.hh"
#include <complex>
#include <cassert>
#include <csetjmp>
// Inside destructors (which must not throw) the caller sets a jump target instead.
namespace mc { inline jmp_buf*& abort_jump() { static jmp_buf* j = 0; return j; } [[noreturn]] inline void lib_abort() { if (jmp_buf* j = abort_jump()) { abort_jump() = 0; longjmp(*j, 1); } throw LibAbort(); } }
namespace std { [[noreturn]] inline void mc_abort_hook() { mc::lib_abort(); } }
[[noreturn]] inline void mc_abort_hook() { mc::lib_abort(); }
#define abort mc_abort_hook
#endif
