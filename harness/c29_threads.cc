// C29: two real threads under a controlled scheduler. The library code (c29_ops.cc, c31_prog.cc) is compiled with the compiler's
// thread instrumentation, whose callbacks are implemented here: every load and store the library executes is checked against
// those of the other thread (happens-before), and at every synchronisation operation the explorer decides who continues.
#include "mc.hh"
#include "c29_api.hh"
#include <pthread.h>
#include <semaphore.h>
extern "C" char __data_start, _end;
namespace {
typedef uintptr_t A; enum { PR, PW, AR, AW };
thread_local int tid = -1; thread_local bool inside; // the explorer's own templates may be the instrumented copies
const size_t STK = 4 << 20; char* stk[2];
struct Cell { A a; uint32_t gen; bool saved; uint16_t ep[2][4][8]; };
const size_t NC = 1 << 17; Cell* cells; uint32_t gen = 1; size_t used;
struct Undo { A a; uint64_t v; }; Undo undo[200000]; int nundo; bool logging;
uint16_t vc[2][2]; struct Sync { A a; uint16_t c[2]; }; Sync syn[4096]; int nsyn;
sem_t sem[2], endsem[2], mainsem; volatile bool done_[2], blocked[2]; mc::Ctx* ctx; long npoints, naccess, nwrites; volatile bool racing; char race[300]; const char* fnname[2];
void* quarantine[1 << 20]; int nq;
std::set<A>* functions; struct Guard { A a; int owner; }; Guard guards[64]; int ng;
bool global(A a) { return a >= (A)&__data_start && a < (A)&_end; }
Cell& find(A c) { size_t h = (c * 0x9e3779b97f4a7c15ull) >> 47; for (;;) { Cell& x = cells[h & (NC - 1)]; if (x.gen != gen) { if (++used > NC * 3 / 4) { fprintf(stderr, "c29: table full\n"); _exit(91); } memset(&x, 0, sizeof x); x.gen = gen; x.a = c; return x; } if (x.a == c) return x; ++h; } }
void save(Cell& c) { if (c.saved) return; c.saved = true; A a = c.a << 3; if (!global(a)) return; if (nundo == 200000) _exit(92); undo[nundo++] = {a, *(uint64_t*)a}; ++nwrites; }
void rollback() { while (nundo) { --nundo; *(uint64_t*)undo[nundo].a = undo[nundo].v; } }
inline bool own(A a) { return a >= (A)stk[tid] && a < (A)stk[tid] + STK; }
void acc(const void* p, size_t n, int kind) {
	A a = (A)p; if (tid < 0) { if (!logging || !(kind & 1) || !global(a)) return; for (A c = a >> 3; c <= (a + n - 1) >> 3; ++c) save(find(c)); return; }
	if (!racing || inside || own(a) || !n) return; ++naccess; int o = 1 - tid; A e = a + n;
	for (A c = a >> 3; c <= (e - 1) >> 3; ++c) { Cell& x = find(c); if (kind & 1) save(x); int lo = c == a >> 3 ? a & 7 : 0, hi = c == (e - 1) >> 3 ? ((e - 1) & 7) : 7;
		for (int b = lo; b <= hi; ++b) { x.ep[tid][kind][b] = vc[tid][tid]; for (int k = 0; k < 4; ++k) { if (!((kind | k) & 1) || (kind >= AR && k >= AR)) continue; if (x.ep[o][k][b] > vc[tid][o] && !race[0]) { static const char* kn[] = {"reads", "writes", "atomically reads", "atomically writes"}; snprintf(race, sizeof race, "one thread %s %s memory%s which the other %s, without synchronisation", kn[kind], global(c << 3) ? "static" : "heap", global(c << 3) ? "" : " (or a shared object)", kn[k]); } } } }
}
Sync& sync_of(A a) { for (int i = 0; i < nsyn; ++i) if (syn[i].a == a) return syn[i]; if (nsyn == 4096) _exit(93); syn[nsyn] = {a, {0, 0}}; return syn[nsyn++]; }
void acquire(A a) { if (tid < 0) return; Sync& s = sync_of(a); for (int i = 0; i < 2; ++i) vc[tid][i] = std::max(vc[tid][i], s.c[i]); }
void release(A a) { if (tid < 0) return; Sync& s = sync_of(a); for (int i = 0; i < 2; ++i) s.c[i] = std::max(s.c[i], vc[tid][i]); ++vc[tid][tid]; }
void hand(int o) { int me = tid; sem_post(&sem[o]); while (sem_wait(&sem[me])) ; }
void sched() { if (tid < 0 || !racing) return; ++npoints; int o = 1 - tid; if (done_[o] || blocked[o]) return; bool sw = false; if (ctx->devs < ctx->dev_bound && ctx->path.size() < 380) { inside = true; sw = ctx->dev(2); inside = false; } if (sw) hand(o); }
void block() { int o = 1 - tid; if (done_[o] || blocked[o]) { fprintf(stderr, "c29: deadlock\n"); _exit(94); } blocked[tid] = true; hand(o); }
void wake() { blocked[1 - tid] = false; }
template<class T> T a_load(const volatile T* p, int mo) { sched(); acc((void*)p, sizeof(T), AR); if (mo) acquire((A)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
template<class T> void a_store(volatile T* p, T v, int mo) { sched(); acc((void*)p, sizeof(T), AW); if (mo) release((A)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }
template<class T, class F> T a_rmw(volatile T* p, int mo, F f) { sched(); acc((void*)p, sizeof(T), AW); if (mo) { acquire((A)p); release((A)p); } T o = *p; *p = f(o); return o; }
template<class T> bool a_cas(volatile T* p, T* e, T v, int mo) { sched(); acc((void*)p, sizeof(T), AW); if (mo) { acquire((A)p); release((A)p); } T o = *p; if (o == *e) { *p = v; return true; } *e = o; return false; }
}
extern "C" {
#define RW(n) void __tsan_read##n(void* p) { acc(p, n, PR); } void __tsan_write##n(void* p) { acc(p, n, PW); } void __tsan_unaligned_read##n(void* p) { acc(p, n, PR); } void __tsan_unaligned_write##n(void* p) { acc(p, n, PW); } void __tsan_read_write##n(void* p) { acc(p, n, PR); acc(p, n, PW); } void __tsan_unaligned_read_write##n(void* p) { acc(p, n, PR); acc(p, n, PW); } void __tsan_volatile_read##n(void* p) { acc(p, n, PR); } void __tsan_volatile_write##n(void* p) { acc(p, n, PW); } void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, PR); } void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, PW); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {} void __tsan_func_entry(void*) { if (functions && !inside) inside = true, functions->insert((A)__builtin_return_address(0)), inside = false; } void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, 8, PW); } void __tsan_vptr_read(void** p) { acc(p, 8, PR); } void __tsan_read_range(void* p, unsigned long n) { acc(p, n, PR); } void __tsan_write_range(void* p, unsigned long n) { acc(p, n, PW); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { acc(s, n, PR); acc(d, n, PW); } return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { acc(s, n, PR); acc(d, n, PW); } return memmove(d, s, n); } void* __tsan_memset(void* d, int c, size_t n) { if (n) acc(d, n, PW); return memset(d, c, n); }
#define AT(B, T) T __tsan_atomic##B##_load(const volatile T* p, int mo) { return a_load(p, mo); } void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { a_store(p, v, mo); } T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { return a_rmw(p, mo, [v](T) { return v; }); } T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { return a_rmw(p, mo, [v](T x) { return T(x + v); }); } T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw(p, mo, [v](T x) { return T(x - v); }); } T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { return a_rmw(p, mo, [v](T x) { return T(x & v); }); } T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { return a_rmw(p, mo, [v](T x) { return T(x | v); }); } T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw(p, mo, [v](T x) { return T(x ^ v); }); } int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { return a_cas(p, e, v, mo); } int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { return a_cas(p, e, v, mo); } T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { a_cas(p, &e, v, mo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sched(); acquire(1); release(1); } void __tsan_atomic_signal_fence(int) {}
// statics initialised on first use
int __cxa_guard_acquire(uint64_t* g) { char* b = (char*)g; for (;;) { sched(); acc(g, 1, AR); if (*b) { acquire((A)g); return 0; } int i = 0; while (i < ng && guards[i].a != (A)g) ++i; if (i == ng) { if (ng == 64) _exit(95); guards[ng++] = {(A)g, tid}; acquire((A)g); return 1; } if (guards[i].owner == tid) { fprintf(stderr, "c29: recursive initialisation\n"); _exit(96); } block(); } }
static void guard_end(uint64_t* g, bool ok) { acc(g, 8, AW); release((A)g); if (ok) *(char*)g = 1; for (int i = 0; i < ng; ++i) if (guards[i].a == (A)g) { guards[i] = guards[--ng]; break; } if (tid >= 0) { wake(); sched(); } }
void __cxa_guard_release(uint64_t* g) { guard_end(g, true); } void __cxa_guard_abort(uint64_t* g) { guard_end(g, false); }
// mutexes, should the library use any
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (tid < 0 || !racing) return 0; for (;;) { sched(); int i = 0; while (i < ng && guards[i].a != (A)m) ++i; if (i == ng) { guards[ng++] = {(A)m, tid}; acquire((A)m); return 0; } if (guards[i].owner == tid) { fprintf(stderr, "c29: relock\n"); _exit(96); } block(); } }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (tid < 0 || !racing) return 0; sched(); for (int i = 0; i < ng; ++i) if (guards[i].a == (A)m) return EBUSY; guards[ng++] = {(A)m, tid}; acquire((A)m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (tid < 0 || !racing) return 0; release((A)m); for (int i = 0; i < ng; ++i) if (guards[i].a == (A)m) { guards[i] = guards[--ng]; break; } wake(); sched(); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { if (tid < 0 || !racing) { if (!*o) { *o = 2; f(); } return 0; } for (;;) { sched(); if (*o == 2) { acquire((A)o); return 0; } int i = 0; while (i < ng && guards[i].a != (A)o) ++i; if (i == ng) { guards[ng++] = {(A)o, tid}; f(); Cell& c = find((A)o >> 3); save(c); *o = 2; release((A)o); for (i = 0; i < ng; ++i) if (guards[i].a == (A)o) { guards[i] = guards[--ng]; break; } wake(); sched(); return 0; } block(); } }
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (tid >= 0 && p && nq < 1 << 20) { quarantine[nq++] = p; return; } free(p); } void operator delete[](void* p) noexcept { operator delete(p); } void operator delete(void* p, size_t) noexcept { operator delete(p); } void operator delete[](void* p, size_t) noexcept { operator delete(p); }
namespace {
struct Job { std::function<void()> f; bool aborted; }; Job job[2];
void* body(void* q) { int t = (int)(A)q; tid = t; while (sem_wait(&sem[t])) ; try { job[t].f(); } catch (mc::LibAbort&) { job[t].aborted = true; } catch (std::exception&) { job[t].aborted = true; } done_[t] = true; if (!done_[1 - t]) { blocked[1 - t] = false; sem_post(&sem[1 - t]); } else sem_post(&mainsem); while (sem_wait(&endsem[t])) ; tid = -1; return 0; }
void fresh() { if (!cells) { cells = (Cell*)mmap(0, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < 2; ++i) stk[i] = (char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } ++gen; used = 0; nundo = 0; }
// what main does with library objects leaves static storage as it found it, so that both threads see first uses
template<class F> void alone(F f) { fresh(); logging = true; try { f(); } catch (...) { logging = false; rollback(); ng = 0; throw; } logging = false; rollback(); ng = 0; }
void two(mc::Ctx& c, const std::string& what, std::function<void()> f, std::function<void()> g) {
	fresh(); ctx = &c; memset(vc, 0, sizeof vc); vc[0][0] = vc[1][1] = 1; nsyn = ng = nq = 0; npoints = naccess = 0; race[0] = 0; job[0] = {f, false}; job[1] = {g, false}; sem_init(&mainsem, 0, 0); pthread_t th[2];
	for (int t = 0; t < 2; ++t) { done_[t] = blocked[t] = false; sem_init(&sem[t], 0, 0); sem_init(&endsem[t], 0, 0); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk[t], STK); if (pthread_create(&th[t], &at, body, (void*)(A)t)) _exit(97); pthread_attr_destroy(&at); }
	int first = c.pick(2); racing = true; sem_post(&sem[first]); timespec tl; clock_gettime(CLOCK_REALTIME, &tl); tl.tv_sec += 60; while (sem_timedwait(&mainsem, &tl)) if (errno == ETIMEDOUT) { fprintf(stderr, "c29: the threads do not finish\n"); _exit(94); } racing = false; for (int t = 0; t < 2; ++t) { sem_post(&endsem[t]); pthread_join(th[t], 0); } rollback(); for (int i = 0; i < nq; ++i) free(quarantine[i]); nq = 0; c.step(npoints + 2); job[0].f = job[1].f = nullptr;
	if (npoints) c.outcome("with synchronisation"); else c.outcome("no synchronisation");
	c.checkf(!race[0], "data race", [&] { return what + ": " + race; }); c.check(!job[0].aborted && !job[1].aborted, "stopped", "a thread is stopped by the library");
}
bool same(const Res& a, const Res& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
// ---- shared objects, only read
void shared(mc::Ctx& c) { int n = c29_shared_ops(), a = c.pick(n), b = c.pick(a + 1); c.state(a * 1000 + b); std::string w = std::string("shared objects, ") + c29_shared_name(a) + " and " + c29_shared_name(b); c.note(w); c.log(w); Res ra, rb, sa, sb; World* W = 0; alone([&] { World* U = c29_world(); c29_shared(*U, a, sa); c29_shared(*U, b, sb); c29_free(U); }); alone([&] { W = c29_world(); });
	two(c, w, [&] { c29_shared(*W, a, ra); }, [&] { c29_shared(*W, b, rb); }); c29_free(W); c.checkf(same(ra, sa) && same(rb, sb), "different results", [&] { return w + ": a thread obtains a result different from the one it obtains alone"; }); }
// ---- disjoint parts of one object
void disjoint(mc::Ctx& c) { int k = c.pick(c29_kinds()), a = c.pick(c29_writers(k)), b = c.pick(c29_writers(k)); c.state((k * 100 + a) * 100 + b); std::string w = std::string("disjoint parts of ") + c29_kind_name(k) + ", " + c29_writer_name(k, a) + " and " + c29_writer_name(k, b); c.note(w); c.log(w); Res want, got; alone([&] { Whole* u = c29_whole(k); c29_write(*u, k, 0, a); c29_write(*u, k, 1, b); c29_dump(*u, want); c29_free(u); }); Whole* W = 0; alone([&] { W = c29_whole(k); });
	two(c, w, [&] { c29_write(*W, k, 0, a); }, [&] { c29_write(*W, k, 1, b); }); alone([&] { c29_dump(*W, got); c29_free(W); }); c.checkf(same(want, got), "different results", [&] { return w + ": the object differs from what the two writes make of it one after the other"; }); }
#if PART == 1
// ---- own objects: programs over the whole library
void own_self(mc::Ctx& c, int g) { std::vector<int> made; Res base; std::vector<std::string> lab; alone([&] { c31::Ch ch{&c, g, {}, 0}; c31_run_0(ch, base, lab); made = ch.made; }); uint64_t h = g; for (int k : made) h = mc::mix(h, k); c.state(h); std::string w = "own objects, program"; for (int k : made) w += " " + std::to_string(k); w += " of group " + std::to_string(g); c.note(w); c.log(w);
	Res r[2]; auto run = [&](int t) { c31::Ch ch{0, g, made, 0}; std::vector<std::string> l; c31_run_0(ch, r[t], l); }; two(c, w, [&] { run(0); }, [&] { run(1); }); c.checkf(same(r[0], base) && same(r[1], base), "different results", [&] { return w + ": a thread obtains a result different from the one it obtains alone"; }); }
// programs which together execute every library function any of them executes
struct Prog { int g; std::vector<int> made; Res res; }; std::vector<Prog> reps; long nprogs;
void representatives() { std::set<A> seen, f; for (int g = 0; g < 10; ++g) { std::vector<int> made, ar; for (;;) { Res r; std::vector<std::string> l; ar.resize(made.size()); f.clear(); alone([&] { c31::Ch ch{0, g, made, 0, &ar}; functions = &f; try { c31_run_0(ch, r, l); } catch (mc::LibAbort&) {} functions = 0; made = ch.made; }); ++nprogs; size_t before = seen.size(); seen.insert(f.begin(), f.end()); if (seen.size() > before) reps.push_back({g, made, r}); while (!made.empty() && made.back() + 1 == ar.back()) made.pop_back(), ar.pop_back(); if (made.empty()) break; ++made.back(); } } fprintf(stderr, "c29: %ld programs, %zu functions, %zu representatives\n", nprogs, seen.size(), reps.size()); }
void own_pair(mc::Ctx& c, bool) { if (reps.empty()) representatives(); int a = c.pick(reps.size()), b = c.pick(a + 1); c.state(mc::mix(a, b)); std::string w = "own objects, representative programs " + std::to_string(a) + " and " + std::to_string(b); c.note(w); c.log(w); Res r[2]; auto run = [&](int t, int k) { c31::Ch ch{0, reps[k].g, reps[k].made, 0}; std::vector<std::string> l; c31_run_0(ch, r[t], l); }; two(c, w, [&] { run(0, a); }, [&] { run(1, b); }); c.checkf(same(r[0], reps[a].res) && same(r[1], reps[b].res), "different results", [&] { return w + ": a thread obtains a result different from the one it obtains alone"; }); }
#endif
}
void mc_register() {
	mc::scenario("shared objects", shared, 0, 0, 2, 3); mc::scenario("disjoint parts", disjoint, 0, 0, 2, 3);
#if PART == 1
	mc::scenario("own objects, pairs", [](mc::Ctx& c) { own_pair(c, true); }, 0, 0, 2, 3);
	static const char* gn[] = {"vectors double", "vectors int", "matrices 2x3", "matrices 3x3", "empty, large and special objects", "decompositions", "rectangular decompositions", "transformations", "estimation and minimisation", "decompositions float"};
	for (int g = 0; g < 10; ++g) mc::scenario(std::string("own objects, ") + gn[g], [g](mc::Ctx& c) { own_self(c, g); }, 0, 0, 2, 3);
#endif
}
MC_MAIN()
