// mc.hh - a small stateless/stateful model checker for sequential C++ code.
//
// A scenario is a deterministic body(Ctx&) that drives the REAL code under test and asks the
// explorer for every decision (operation, operand, shape, value, fault point, environment answer)
// with Ctx::pick.  The explorer enumerates ALL decision sequences (depth-first, simplest choice
// first), each one a fresh execution, optionally bounded in the number of deviations (Ctx::dev)
// and pruned at already-expanded canonical states (Ctx::visit).  Executions are spread over
// worker processes; a crash, sanitizer report, hang or unexpected terminate of a worker is itself
// a violation, which is replayed alone in a fresh process before it is reported.
#ifndef MC_HH
#define MC_HH
#include <bits/stdc++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

namespace mc {
using std::string; using std::vector;

struct Prune {};
struct Violation { string key, msg; };
/// Thrown in place of std::abort() by the code under test (see toon_env.hh).
struct LibAbort {};

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
inline uint64_t hash_str(const string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h; }
struct Hasher { uint64_t h = 0x1234567; Hasher& operator()(uint64_t v) { h = mix(h, v); return *this; }
	Hasher& d(double v) { if (v == 0) v = 0; uint64_t u; memcpy(&u, &v, 8); h = mix(h, u); return *this; }
	Hasher& s(const string& v) { h = mix(h, hash_str(v)); return *this; } };

const int MAXP = 400;
struct Slot { // shared with the parent: where a worker is
	volatile int task, n, choice[MAXP], arity[MAXP];
	volatile long execs, transitions, validated, pruned;
	volatile long task_first_exec;
	char note[256]; char trace[8192];
};

class Ctx {
public:
	int depth = 0, dev_bound = 1 << 30;
	int pick(int n, const char* = 0) { return choose(n); }
	int dev(int n, const char* = 0) { if (devs >= dev_bound) { choose(1); return 0; } int c = choose(n); if (c) ++devs; return c; }
	bool flip() { return pick(2); }
	template<class T> T of(std::initializer_list<T> l) { return *(l.begin() + pick((int)l.size())); }
	template<class T> const T& of(const vector<T>& l) { return l[pick((int)l.size())]; }
	void step(long k = 1) { slot->transitions = slot->transitions + k; }
	void validated(long k = 1) { slot->validated = slot->validated + k; }
	void state(uint64_t h) { if (states->size() < max_states) states->insert(h); else states_capped = true; }
	/// Returns normally the first time this canonical state is reached with that much work left; prunes otherwise.
	void visit(uint64_t h, int remaining) {
		state(h);
		if (replaying || path.size() < prefix.size()) return; // still re-executing the prefix of an earlier execution
		auto it = expanded->find(h);
		if (it != expanded->end() && it->second >= remaining) { slot->pruned = slot->pruned + 1; throw Prune(); }
		(*expanded)[h] = remaining;
	}
	void outcome(const string& s) { if (outcomes->size() < 400 || outcomes->count(s)) ++(*outcomes)[s]; }
	bool tracing() const { return trace_on; }
	void log(const string& s) { if (trace_on) { trace += s; trace += "; "; if (replaying) { strncpy(slot->trace, trace.size() > 8000 ? trace.c_str() + trace.size() - 8000 : trace.c_str(), 8191); } } }
	template<class... A> void logf(const char* f, A... a) { if (trace_on) { char b[1024]; snprintf(b, sizeof b, f, a...); log(b); } }
	[[noreturn]] void fail(const string& key, const string& msg) { throw Violation{key, msg}; }
	void check(bool ok, const char* key, const char* msg = "") { slot->validated = slot->validated + 1; if (!ok) fail(key, msg); }
	template<class F> void checkf(bool ok, const string& key, F f) { slot->validated = slot->validated + 1; if (!ok) fail(key, f()); }
	void note(const string& s) { strncpy(slot->note, s.c_str(), 255); slot->note[255] = 0; }

	// --- engine internals
	Slot* slot = 0; vector<int> prefix; vector<std::pair<int, int>> path; int devs = 0;
	bool trace_on = false, replaying = false, states_capped = false; string trace;
	std::unordered_set<uint64_t>* states = 0; std::unordered_map<uint64_t, int>* expanded = 0; std::map<string, long>* outcomes = 0;
	size_t max_states = 3000000;
private:
	int choose(int n) {
		size_t i = path.size();
		if (n < 1) { fprintf(stderr, "mc: pick(%d)\n", n); _exit(90); }
		if (i >= (size_t)MAXP) { fprintf(stderr, "mc: too many choice points\n"); _exit(90); }
		int c = i < prefix.size() ? prefix[i] : 0;
		if (c >= n) { fprintf(stderr, "mc: DIVERGENCE at choice %zu: %d of %d\n", i, c, n); _exit(89); }
		path.push_back({c, n}); slot->choice[i] = c; slot->arity[i] = n; slot->n = (int)i + 1;
		return c;
	}
};

struct Scenario { string name; std::function<void(Ctx&)> body; int dq, dt; int devq, devt; int horizon; };
inline vector<Scenario>& registry() { static vector<Scenario> r; return r; }
/// dq/dt: Ctx::depth for the quick/thorough tier (-1: scenario is skipped in that tier).
inline void scenario(const string& name, std::function<void(Ctx&)> body, int dq = 0, int dt = 0, int devq = 1 << 30, int devt = 1 << 30, int horizon = 20)
{ registry().push_back({name, body, dq, dt, devq, devt, horizon}); }

template<class T> string str(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }

struct Task { int scen; vector<int> prefix; };
struct Known { string property, scenario, key, text; };
struct Report { string scenario, key, msg, trace; vector<int> choices; bool confirmed = false; };

class Engine {
public:
	string property, part, tier = "quick", out, replay_file, known_file, replay_dir, only; int nworkers = 8; double budget = 700, stop_after = 60;
	vector<Task> tasks; vector<Known> knowns;
	struct Shared { std::atomic<int> next; std::atomic<int> stop; std::atomic<double> found; // when the first violation that is not known was seen
	 Slot slot[64]; };
	Shared* sh = 0; string tmp; double t0;

	static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
	int depth_of(const Scenario& s) { return tier == "thorough" ? s.dt : s.dq; }
	int dev_of(const Scenario& s) { return tier == "thorough" ? s.devt : s.devq; }

	static Slot*& cur_slot() { static Slot* s = 0; return s; }
	static volatile long& last_exec() { static volatile long v = -1; return v; }
	static volatile int& ticks() { static volatile int v = 0; return v; }
	static int& horizon() { static int v = 20; return v; }
	static void on_tick(int) { Slot* s = cur_slot(); if (!s) return; if (s->execs == last_exec()) { if (++ticks() > horizon()) _exit(87); } else { last_exec() = s->execs; ticks() = 0; } }
	static void on_terminate() { _exit(88); }
	static void arm(Slot* s) {
		cur_slot() = s; std::set_terminate(on_terminate);
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, 0);
		itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &it, 0);
	}
	static string crash_name(int st) {
		if (WIFSIGNALED(st)) return string("crash-signal-") + str(WTERMSIG(st));
		switch (WEXITSTATUS(st)) { case 86: return "sanitizer-report"; case 87: return "does-not-terminate"; case 88: return "terminate-called"; default: return "exit-" + str(WEXITSTATUS(st)); }
	}

	// one execution; returns 0 ok, 1 violation
	int run_once(Ctx& c, const Scenario& s, Violation* v) {
		c.path.clear(); c.devs = 0; c.trace.clear(); c.depth = depth_of(s); c.dev_bound = dev_of(s); horizon() = s.horizon;
		int r = 0;
		try { s.body(c); }
		catch (Prune&) {}
		catch (Violation& e) { *v = e; r = 1; }
		catch (LibAbort&) { *v = Violation{"abort", "the library stopped the program (std::abort) in a valid use"}; r = 1; }
		catch (std::exception& e) { *v = Violation{"exception", string("unexpected exception: ") + e.what()}; r = 1; }
		c.slot->execs = c.slot->execs + 1;
		return r;
	}
	static bool next_prefix(const vector<std::pair<int, int>>& path, size_t fixed, vector<int>& out) {
		for (size_t j = path.size(); j-- > fixed;)
			if (path[j].first + 1 < path[j].second) { out.clear(); for (size_t k = 0; k < j; ++k) out.push_back(path[k].first); out.push_back(path[j].first + 1); return true; }
		return false;
	}
	static string esc(const string& s) { string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o; }

	// Worker: takes tasks until none are left; resume_task/resume_prefix continue an interrupted task.
	void worker(int w, int resume_task, vector<int> resume_prefix, const string& rfile) {
		Slot* sl = &sh->slot[w]; arm(sl);
		int ef = ::open((tmp + "/err." + str(w)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if (ef >= 0) dup2(ef, 2);
		std::unordered_set<uint64_t> states; std::map<string, long> outcomes; bool capped = false;
		std::unordered_map<uint64_t, int> expanded;
		vector<string> samples; std::map<string, int> nsamp; std::map<string, long> exec_by; std::map<string, int> seen_viol;
		string viol;
		int exp_scen = -1;
		for (;;) {
			int t = resume_task >= 0 ? resume_task : sh->next++;
			if (t >= (int)tasks.size()) break;
			Task& tk = tasks[t]; Scenario& s = registry()[tk.scen]; size_t fixed = tk.prefix.size();
			if (tk.scen != exp_scen) { expanded.clear(); exp_scen = tk.scen; }
			vector<int> pre = resume_task >= 0 ? resume_prefix : tk.prefix; resume_task = -1;
			sl->task = t; sl->task_first_exec = sl->execs;
			bool any = true;
			while (any) {
				if ((sl->execs & 15) == 0 && (now() - t0 > budget || (sh->found > 0 && now() - sh->found > stop_after))) { sh->stop = 1; break; }
				Ctx c; c.slot = sl; c.states = &states; c.expanded = &expanded; c.outcomes = &outcomes; c.prefix = pre;
				int& ns = nsamp[s.name]; long& ne = exec_by[s.name];
				c.trace_on = ns < 3 && (ne == 0 || ne == 7 || ne == 100);
				Violation v; int r = run_once(c, s, &v); ++ne;
				if (c.states_capped) capped = true;
				if (c.trace_on && !c.trace.empty()) { ++ns; samples.push_back(s.name + ": " + c.trace.substr(0, 700)); }
				if (r) { // record; parent confirms
					if (sh->found == 0 && std::none_of(knowns.begin(), knowns.end(), [&](const Known& k) { return k.property == property && k.scenario == s.name && k.key == v.key; })) sh->found = now();
					string id = s.name + " " + v.key; int& k = seen_viol[id];
					if (k++ < 2) {
						std::ostringstream o; o << tk.scen << '\x1f' << v.key << '\x1f' << v.msg << '\x1f' << t << '\x1f';
						for (auto& p : c.path) o << p.first << ' '; o << '\x1e'; viol += o.str();
					}
					if (seen_viol.size() > 200) { any = false; break; }
				}
				any = next_prefix(c.path, fixed, pre);
			}
			if (sh->stop) break;
		}
		FILE* f = fopen(rfile.c_str(), "wb");
		auto ws = [&](const string& x) { size_t n = x.size(); fwrite(&n, sizeof n, 1, f); fwrite(x.data(), 1, n, f); };
		size_t n = states.size(); fwrite(&n, sizeof n, 1, f); for (uint64_t h : states) fwrite(&h, 8, 1, f);
		n = outcomes.size(); fwrite(&n, sizeof n, 1, f); for (auto& o : outcomes) { ws(o.first); fwrite(&o.second, sizeof(long), 1, f); }
		n = samples.size(); fwrite(&n, sizeof n, 1, f); for (auto& x : samples) ws(x);
		n = exec_by.size(); fwrite(&n, sizeof n, 1, f); for (auto& o : exec_by) { ws(o.first); fwrite(&o.second, sizeof(long), 1, f); }
		ws(viol); n = capped; fwrite(&n, sizeof n, 1, f); fclose(f);
		_exit(0);
	}

	// replay alone in a fresh process: 0 passes, 1 violation (key,msg,trace filled), 2 crash
	int replay(int scen, const vector<int>& ch, int mult, Report& rep) {
		string f = tmp + "/replay." + str(getpid()), e = tmp + "/replay.err";
		Slot* sl = &sh->slot[63]; sl->n = 0; sl->trace[0] = 0; sl->note[0] = 0;
		fflush(0);
		pid_t p = fork();
		if (!p) {
			int ef = ::open(e.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(ef, 2);
			arm(sl); Scenario s = registry()[scen]; s.horizon *= mult;
			std::unordered_set<uint64_t> st; std::map<string, long> oc; std::unordered_map<uint64_t, int> ex;
			Ctx c; c.slot = sl; c.states = &st; c.outcomes = &oc; c.expanded = &ex; c.prefix = ch; c.trace_on = true; c.replaying = true;
			Violation v; int r = run_once(c, s, &v);
			std::ofstream o(f); o << v.key << '\x1f' << v.msg << '\x1f' << c.trace; o.close();
			_exit(r);
		}
		int st; waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) <= 1) {
			std::ifstream i(f); string all((std::istreambuf_iterator<char>(i)), {}); size_t a = all.find('\x1f'), b = all.find('\x1f', a + 1);
			if (a != string::npos && b != string::npos) { rep.key = all.substr(0, a); rep.msg = all.substr(a + 1, b - a - 1); rep.trace = all.substr(b + 1); }
			return WEXITSTATUS(st);
		}
		rep.key = crash_name(st); rep.trace = sl->trace;
		std::ifstream i(e); string all((std::istreambuf_iterator<char>(i)), {}); rep.msg = string(sl->note) + " " + rep.key + ": " + all.substr(0, 1500);
		return 2;
	}
	const Known* is_known(const Report& r) { for (auto& k : knowns) if (k.property == property && k.scenario == r.scenario && k.key == r.key) return &k; return 0; }

	void load_known() {
		std::ifstream f(known_file); string l;
		while (getline(f, l)) if (l.rfind("finding: ", 0) == 0) {
			// finding: property=<id> scenario=<name, may contain spaces> key=<word> <text>
			Known k; size_t p = l.find("property="), q = l.find(" scenario="), r = l.find(" key=");
			if (p == string::npos || q == string::npos || r == string::npos || r < q) continue;
			k.property = l.substr(p + 9, q - p - 9); k.scenario = l.substr(q + 10, r - q - 10); size_t e = l.find(' ', r + 5); k.key = l.substr(r + 5, e == string::npos ? e : e - r - 5); k.text = e == string::npos ? "" : l.substr(e); knowns.push_back(k);
		}
	}

	int main(int argc, char** argv) {
		t0 = now();
		for (int i = 1; i + 1 < argc; i += 2) {
			string a = argv[i], b = argv[i + 1];
			if (a == "--property") property = b; else if (a == "--part") part = b; else if (a == "--tier") tier = b; else if (a == "--out") out = b;
			else if (a == "--replay") replay_file = b; else if (a == "--known") known_file = b; else if (a == "--replay-dir") replay_dir = b;
			else if (a == "--workers") nworkers = atoi(b.c_str()); else if (a == "--budget") budget = atof(b.c_str()); else if (a == "--stop-after") stop_after = atof(b.c_str()); else if (a == "--only") only = b;
		}
		if (nworkers > 60) nworkers = 60;
		char tn[] = "/tmp/mc.XXXXXX"; tmp = mkdtemp(tn);
		sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof(Shared));
		load_known();
		int rc = replay_file.empty() ? explore_all() : do_replay();
		string cmd = "rm -rf " + tmp; if (system(cmd.c_str())) {}
		return rc;
	}
	int do_replay() {
		std::ifstream f(replay_file); string l, scn; vector<int> ch;
		while (getline(f, l)) { if (l.rfind("scenario=", 0) == 0) scn = l.substr(9); if (l.rfind("tier=", 0) == 0) tier = l.substr(5); if (l.rfind("choices=", 0) == 0) { std::istringstream is(l.substr(8)); int x; while (is >> x) ch.push_back(x); } }
		for (size_t i = 0; i < registry().size(); ++i) if (registry()[i].name == scn) {
			Report r; int k = replay((int)i, ch, 3, r);
			printf("%s scenario=%s key=%s %s\ntrace: %s\n", k ? "REPRODUCED" : "passes", scn.c_str(), r.key.c_str(), r.msg.c_str(), r.trace.c_str());
			return k ? 1 : 0;
		}
		fprintf(stderr, "no scenario %s in this part\n", scn.c_str()); return 2;
	}
	int probe(int scen, vector<int> pre, size_t at) { // arity of choice number `at` after prefix, 0 if none
		Slot* sl = &sh->slot[62]; sl->n = 0; fflush(0);
		pid_t p = fork();
		if (!p) { int ef = ::open("/dev/null", O_WRONLY); dup2(ef, 2); arm(sl); Scenario& s = registry()[scen];
			std::unordered_set<uint64_t> st; std::map<string, long> oc; std::unordered_map<uint64_t, int> ex;
			Ctx c; c.slot = sl; c.states = &st; c.outcomes = &oc; c.expanded = &ex; c.prefix = pre; Violation v; run_once(c, s, &v); _exit(0); }
		int st; waitpid(p, &st, 0);
		return sl->n > (int)at ? sl->arity[at] : 0;
	}
	int explore_all() {
		vector<int> depths;
		for (size_t i = 0; i < registry().size(); ++i) {
			Scenario& s = registry()[i];
			if (depth_of(s) < 0) continue;
			if (!only.empty() && s.name.find(only) == string::npos) continue;
			int a0 = probe((int)i, {}, 0);
			if (a0 == 0) { tasks.push_back({(int)i, {}}); continue; }
			for (int k = 0; k < a0; ++k) {
				int a1 = a0 <= 40 ? probe((int)i, {k}, 1) : 0;
				if (a1 > 1 && a1 <= 200) for (int m = 0; m < a1; ++m) tasks.push_back({(int)i, {k, m}});
				else tasks.push_back({(int)i, {k}});
			}
		}
		if (tasks.empty()) { fprintf(stderr, "mc: no tasks\n"); return 2; }
		vector<Report> reports; vector<string> rfiles; int nw = std::min<int>(nworkers, (int)tasks.size()); int crashes = 0, lost = 0, serial = 0;
		std::map<pid_t, std::pair<int, string>> live;
		auto spawn = [&](int w, int rt, vector<int> rp) { string rf = tmp + "/res." + str(serial++); fflush(0); pid_t p = fork(); if (!p) { worker(w, rt, rp, rf); } live[p] = {w, rf}; };
		for (int w = 0; w < nw; ++w) spawn(w, -1, {});
		bool gave_up = false; std::set<string> crash_seen;
		while (!live.empty()) {
			int st; pid_t p = wait(&st); if (!live.count(p)) continue;
			auto [w, rf] = live[p]; live.erase(p);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { rfiles.push_back(rf); continue; }
			if (WIFEXITED(st) && (WEXITSTATUS(st) == 89 || WEXITSTATUS(st) == 90)) { std::ifstream i(tmp + "/err." + str(w)); std::cerr << i.rdbuf(); fprintf(stderr, "mc: engine error in worker (exit %d) scenario %s\n", WEXITSTATUS(st), registry()[tasks[sh->slot[w].task].scen].name.c_str());
				for (auto& l : live) kill(l.first, SIGKILL); return 2; }
			if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "mc: worker killed (out of memory?) in scenario %s\n", registry()[tasks[sh->slot[w].task].scen].name.c_str()); for (auto& l : live) kill(l.first, SIGKILL); return 2; }
			// crash: where was it?
			++lost; Slot& sl = sh->slot[w]; Report r; Task& tk = tasks[sl.task]; r.scenario = registry()[tk.scen].name;
			vector<std::pair<int, int>> path; for (int i = 0; i < sl.n; ++i) { path.push_back({(int)sl.choice[i], (int)sl.arity[i]}); r.choices.push_back((int)sl.choice[i]); }
			string k0 = crash_name(st); r.key = k0;
			if (!crash_seen.count(r.scenario + sl.note + k0) || crash_seen.size() < 8) {
				int k = replay(tk.scen, r.choices, 3, r); r.confirmed = k != 0;
				bool hang = k0 == "does-not-terminate";
				if (!k) { std::ifstream i(tmp + "/err." + str(w)); string all((std::istreambuf_iterator<char>(i)), {}); r.key = k0; r.msg = string(sl.note) + " " + k0 + " (in a worker after earlier executions; alone it passes): " + all.substr(0, 1500); }
				if (!(hang && !k)) reports.push_back(r);
				crash_seen.insert(r.scenario + sl.note + k0);
			}
			sl.execs = sl.execs + 1; ++crashes;
			bool isk = is_known(r);
			if (!isk && crashes > 12) { gave_up = true; sh->next = (int)tasks.size(); continue; }
			vector<int> np;
			if (next_prefix(path, tk.prefix.size(), np)) spawn(w, sl.task, np); else spawn(w, -1, {});
		}
		// merge
		std::unordered_set<uint64_t> states; std::map<string, long> outcomes, exec_by; vector<string> samples; bool capped = false; string viol;
		for (auto& rf : rfiles) {
			FILE* f = fopen(rf.c_str(), "rb"); if (!f) continue;
			auto rn = [&]() { size_t n = 0; if (fread(&n, sizeof n, 1, f) != 1) n = 0; return n; };
			auto rs = [&]() { string x(rn(), 0); if (x.size() && fread(&x[0], 1, x.size(), f) != x.size()) x.clear(); return x; };
			size_t n = rn(); for (size_t i = 0; i < n; ++i) { uint64_t h; if (fread(&h, 8, 1, f)) states.insert(h); }
			n = rn(); for (size_t i = 0; i < n; ++i) { string k = rs(); outcomes[k] += rn(); }
			n = rn(); for (size_t i = 0; i < n; ++i) samples.push_back(rs());
			n = rn(); for (size_t i = 0; i < n; ++i) { string k = rs(); exec_by[k] += rn(); }
			viol += rs(); capped |= rn() != 0; fclose(f);
		}
		long nsv = 0; std::map<string, int> per;
		std::istringstream vs(viol); string rec;
		vector<std::tuple<size_t, string, string>> recs;
		while (getline(vs, rec, '\x1e')) { size_t nc = std::count(rec.begin(), rec.end(), ' '); recs.push_back({nc, rec, rec}); }
		std::sort(recs.begin(), recs.end());
		for (auto& tr : recs) {
			rec = std::get<1>(tr); ++nsv; vector<string> p; std::istringstream rs(rec); string x; while (getline(rs, x, '\x1f')) p.push_back(x);
			if (p.size() < 5) p.resize(5);
			Report r; int scen = atoi(p[0].c_str()); r.scenario = registry()[scen].name; r.key = p[1]; r.msg = p[2];
			if (per[r.scenario + " " + r.key]++ >= 1) continue;
			std::istringstream cs(p[4]); int cc; while (cs >> cc) r.choices.push_back(cc);
			Report q = r; int k = replay(scen, r.choices, 3, q); r.confirmed = k != 0; if (k) { r.key = q.key; r.msg = q.msg; r.trace = q.trace; } else r.msg += " (in a worker after earlier executions; alone it passes: state is carried between executions)";
			reports.push_back(r);
		}
		// report
		int nviol = 0, printed = 0; std::set<string> kseen; std::ostringstream vj;
		std::map<string, int> dedup;
		for (auto& r : reports) {
			if (!is_known(r) && dedup[r.scenario + "\x1f" + r.key]++) { ++nviol; continue; } // one report per scenario and kind
			if (const Known* k = is_known(r)) { if (kseen.insert(r.scenario + r.key).second) printf("KNOWN-FINDING: property=%s scenario=%s key=%s%s\n", property.c_str(), r.scenario.c_str(), r.key.c_str(), k->text.c_str()); continue; }
			++nviol; if (++printed > 10) continue;
			string path = replay_dir + "/" + property + "-" + part + "-" + str(printed) + ".txt"; std::ofstream o(path);
			o << "property=" << property << "\npart=" << part << "\ntier=" << tier << "\nscenario=" << r.scenario << "\nkey=" << r.key << "\nchoices="; for (int c : r.choices) o << c << ' ';
			o << "\nmessage=" << r.msg << "\ntrace=" << r.trace << "\n# replay: python3 /verif/run.py " << property << " --replay " << path << "\n"; o.close();
			printf("VIOLATION property=%s replay=%s\n  %s [%s]: %s\n  %s\n", property.c_str(), path.c_str(), r.scenario.c_str(), r.key.c_str(), r.msg.substr(0, 1200).c_str(), r.trace.substr(0, 1200).c_str());
		}
		long ex = 0, tr = 0, va = 0, pr = 0; for (int w = 0; w < nw; ++w) { ex += sh->slot[w].execs; tr += sh->slot[w].transitions; va += sh->slot[w].validated; pr += sh->slot[w].pruned; }
		bool exhaustive = !sh->stop && !gave_up && !capped;
		std::ofstream o(out);
		o << "{\"part\":\"" << part << "\",\"executions\":" << ex << ",\"transitions\":" << tr << ",\"comparisons\":" << va << ",\"pruned\":" << pr << ",\"states\":" << states.size() << ",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\"time_capped\":" << (sh->stop ? "true" : "false")
		  << ",\"violations\":" << nviol << ",\"known\":" << kseen.size() << ",\"worker_crashes\":" << lost << ",\"wall_s\":" << now() - t0 << ",\"scenarios\":{";
		bool first = true; for (auto& e : exec_by) { o << (first ? "" : ",") << "\"" << esc(e.first) << "\":" << e.second; first = false; }
		o << "},\"bounds\":{"; first = true; for (auto& s : registry()) { if (depth_of(s) < 0) continue; if (depth_of(s) == 0 && dev_of(s) >= (1 << 30)) continue; o << (first ? "" : ",") << "\"" << esc(s.name) << "\":\"depth " << depth_of(s) << (dev_of(s) < (1 << 30) ? " deviations " + str(dev_of(s)) : "") << "\""; first = false; }
		o << "},\"outcomes\":{"; first = true; int lim = 0; for (auto& e : outcomes) { if (++lim > 60) break; o << (first ? "" : ",") << "\"" << esc(e.first) << "\":" << e.second; first = false; }
		o << "},\"distinct_outcomes\":" << outcomes.size() << ",\"samples\":["; first = true; size_t cnt = 0; std::set<string> sdone; std::map<string,int> per_s;
		for (auto& s : samples) { string n = s.substr(0, s.find(':')); if (per_s[n]++ >= 2 || ++cnt > 24 || !sdone.insert(s).second) continue; o << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false; }
		o << "]}\n"; o.close();
		fprintf(stderr, "[%s/%s] executions=%ld transitions=%ld states=%zu comparisons=%ld pruned=%ld outcomes=%zu %s%.1fs\n", property.c_str(), part.c_str(), ex, tr, states.size(), va, pr, outcomes.size(), exhaustive ? "" : "NOT EXHAUSTIVE ", now() - t0);
		if (nviol) return 1;
		return 0;
	}
};
} // namespace mc

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=86:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=16:handle_segv=1:max_malloc_fill_size=1048576:malloc_fill_byte=190"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=86:print_stacktrace=0"; }
#endif

#define MC_MAIN() int main(int argc, char** argv) { void mc_register(); mc_register(); mc::Engine e; return e.main(argc, argv); }
#endif
