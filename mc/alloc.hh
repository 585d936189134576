// alloc.hh - replaces global operator new/delete. While mc::alloc::on, every allocation is recorded
// (leak, double release and new/delete[] mismatch detection) and may be made to fail on demand.
#ifndef MC_ALLOC_HH
#define MC_ALLOC_HH
#include "mc.hh"
namespace mc { namespace alloc {
struct Rec { void* p; size_t n; int kind; };
const int MAXR = 8192;
inline Rec recs[MAXR]; inline int nrec = 0;
inline bool on = false; inline long count = 0, fail_at = -1, fail_at2 = -1, failed = 0;
inline const char* error = 0;
inline void* get(size_t n, int kind) {
	if (on) { long k = count++; if (k == fail_at || k == fail_at2) { ++failed; throw std::bad_alloc(); } }
	void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
	if (on) { if (nrec < MAXR) recs[nrec++] = {p, n, kind}; else { fprintf(stderr, "mc: too many live allocations\n"); _exit(90); } }
	return p;
}
inline void put(void* p, int kind) {
	if (!p) return;
	for (int i = nrec; i-- > 0;) if (recs[i].p == p) { if (recs[i].kind != kind) error = "memory obtained with new[] released with delete (or the reverse)"; recs[i] = recs[--nrec]; break; }
	free(p);
}
/// Turns recording on for a scope (code under test), off outside.
struct Scope { bool o; Scope() : o(on) { on = true; } ~Scope() { on = o; } };
struct Pause { bool o; Pause() : o(on) { on = false; } ~Pause() { on = o; } };
inline void reset() { nrec = 0; count = 0; fail_at = fail_at2 = -1; failed = 0; error = 0; on = false; }
inline void finish(Ctx& c) { on = false; if (error) { const char* e = error; error = 0; c.fail("new-delete-mismatch", e); } if (nrec) { int n = nrec; size_t b = recs[0].n; nrec = 0; c.fail("leak", "leaked " + std::to_string(n) + " block(s), first of " + std::to_string(b) + " bytes"); } }
}}
void* operator new(size_t n) { return mc::alloc::get(n, 0); }
void* operator new[](size_t n) { return mc::alloc::get(n, 1); }
void operator delete(void* p) noexcept { mc::alloc::put(p, 0); }
void operator delete[](void* p) noexcept { mc::alloc::put(p, 1); }
void operator delete(void* p, size_t) noexcept { mc::alloc::put(p, 0); }
void operator delete[](void* p, size_t) noexcept { mc::alloc::put(p, 1); }
#endif
