// Runner: forked workers, crash attribution, shrinking, replay files, evidence.
#include "core.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

static uint64_t mix(uint64_t a, uint64_t b) {
	uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static uint64_t hash_str(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }
static uint64_t hash_rec(const std::vector<uint32_t>& v) { uint64_t h = 1469598103934665603ull; for (uint32_t x : v) h = mix(h, x); return h | 1; }

enum Outcome { PASS = 0, FAILED = 1, DISCARDED = 2 };

// Runs the property once in this process. Returns outcome and message.
static Outcome run_here(const Prop& p, Src& s, std::string& msg) {
	srand((unsigned)1);
	struct Cur { Cur(Src* s) { g_src = s; } ~Cur() { g_src = nullptr; } } cur(&s);
	try { p.fn(s); return PASS; }
	catch (const Fail& f) { msg = f.msg; return FAILED; }
	catch (const Discard&) { return DISCARDED; }
	catch (std::exception* e) { msg = std::string("unexpected exception (pointer): ") + e->what(); return FAILED; }
	catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return FAILED; }
	catch (...) { msg = "unexpected exception of unknown type"; return FAILED; }
}

#ifdef FUZZING_BUILD
static const Prop* g_fuzz_prop = nullptr;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
	const char* id = getenv("PBT_ID");
	for (auto& p : props()) if (id && strcmp(p.id, id) == 0) g_fuzz_prop = &p;
	if (!g_fuzz_prop) { fprintf(stderr, "PBT_ID not set\n"); _exit(2); }
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
	Src s(data, size);
	std::string msg;
	if (run_here(*g_fuzz_prop, s, msg) == FAILED) {
		fprintf(stderr, "PBT failure: %s\n", msg.c_str());
		abort();
	}
	return 0;
}
#else

struct Shared {
	volatile uint64_t cur[64];
	volatile uint64_t done, discarded;
	volatile int failed;            // 1 when a worker reported a failure
	volatile uint64_t fail_case, fail_chunk_begin;
	char msg[8192];
	// child run area
	uint32_t n_rec;
	uint32_t nt;
	char notes[65536];
	uint32_t rec[1 << 20];
};
static Shared* sh;
static uint64_t* hashes; // one per case, 0 = trivial or not run
static std::string g_tmp;

static std::string tail_of(const std::string& path, size_t n = 3000) {
	std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
	size_t pos = s.find("ERROR: AddressSanitizer"); if (pos == std::string::npos) pos = s.find("runtime error");
	if (pos != std::string::npos) { size_t b = s.rfind('\n', pos); s = s.substr(b == std::string::npos ? 0 : b + 1); return s.substr(0, n); }
	return s.size() > n ? s.substr(s.size() - n) : s;
}

#if __has_feature(thread_sanitizer)
#define SANITIZERS "under the thread sanitizer"
#elif __has_feature(address_sanitizer)
#define SANITIZERS "under address and undefined-behaviour sanitizers"
#else
#define SANITIZERS "without sanitizers"
#define NO_SANITIZER 1
#endif
// An endless loop burns processor time; a loaded machine only makes it last. Waiting for ever is given six times as long.
static void limit_time(unsigned s) { struct itimerval it = {{0, 0}, {(time_t)s, 0}}; setitimer(ITIMER_PROF, &it, nullptr); alarm(6 * s); }
static bool timed_out(int st) { return WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF); }

struct ChildResult { Outcome out; bool crash = false, timeout = false; std::string msg; std::vector<uint32_t> rec; bool nt = false; std::string notes; };

// Runs cases [first,last] of a history or one choice sequence in a fresh child.
template <class F> static ChildResult in_child(F body, unsigned limit_s) {
	ChildResult r;
	sh->n_rec = 0; sh->msg[0] = 0; sh->notes[0] = 0; sh->nt = 0;
	std::string err = g_tmp + "/child.err";
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1);
		limit_time(limit_s);
		_exit(body());
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st) && WEXITSTATUS(st) <= 2) { r.out = (Outcome)WEXITSTATUS(st); r.msg = sh->msg; }
	else {
		r.out = FAILED; r.crash = true; r.timeout = timed_out(st);
		r.msg = r.timeout ? fmt("did not finish within %u s", limit_s) : (WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("aborted (exit %d)", WEXITSTATUS(st))) + "\n" + tail_of(err);
	}
	r.rec.assign(sh->rec, sh->rec + sh->n_rec); r.nt = sh->nt; r.notes = sh->notes;
	return r;
}
static void publish(const Src& s, const std::string& msg) {
	sh->n_rec = (uint32_t)std::min<size_t>(s.rec.size(), 1 << 20);
	memcpy((void*)sh->rec, s.rec.data(), sh->n_rec * 4);
	snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
	snprintf(sh->notes, sizeof sh->notes, "%s", s.notes.c_str());
	sh->nt = s.nt;
}
static ChildResult run_choices(const Prop& p, const std::vector<uint32_t>& c, unsigned limit = 20, bool verbose = false) {
	return in_child([&]() {
		Src s(c); s.verbose = verbose; std::string msg;
		Outcome o = run_here(p, s, msg); publish(s, msg); return (int)o;
	}, limit);
}
static uint64_t case_seed(uint64_t seed, const Prop& p, uint64_t i) { return mix(mix(seed, hash_str(p.id)), i); }
static ChildResult run_index(const Prop& p, uint64_t seed, uint64_t i, bool verbose) {
	return in_child([&]() {
		Src s(case_seed(seed, p, i), i); s.verbose = verbose; std::string msg;
		Outcome o = run_here(p, s, msg); publish(s, msg); return (int)o;
	}, 20);
}
// Replays a history of cases in one process; fails if the last one fails.
static ChildResult run_history(const Prop& p, uint64_t seed, uint64_t a, uint64_t b) {
	return in_child([&]() {
		for (uint64_t i = a; i <= b; ++i) {
			Src s(case_seed(seed, p, i), i); std::string msg;
			Outcome o = run_here(p, s, msg);
			if (o == FAILED) { publish(s, msg + fmt(" (case %llu of a history from %llu)", (unsigned long long)i, (unsigned long long)a)); return 1; }
		}
		return 0;
	}, 300);
}
// Choices of a case that crashed: run it in a child that publishes every draw is too slow, so regenerate by
// running it in BYTES-free RANDOM mode with recording flushed on crash through shared memory.
static std::vector<uint32_t>* g_live = nullptr;
static Src* g_case = nullptr;
static void flush_live() { if (g_case) { sh->n_rec = (uint32_t)std::min<size_t>(g_case->rec.size(), 1 << 20); memcpy((void*)sh->rec, g_case->rec.data(), sh->n_rec * 4); } }
static void on_sig(int sig) { flush_live(); signal(sig, SIG_DFL); raise(sig); }
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));
static void on_death() {
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(flush_live);
#ifdef NO_SANITIZER
	for (int x : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(x, on_sig);
#endif
}
static ChildResult run_bytes(const Prop& p, const std::string& bytes) {
	return in_child([&]() {
		Src s((const uint8_t*)bytes.data(), bytes.size()); g_case = &s;
		on_death();
		signal(SIGALRM, on_sig); signal(SIGPROF, on_sig); signal(SIGABRT, on_sig);
		std::string msg; Outcome o = run_here(p, s, msg); publish(s, msg); return (int)o;
	}, 60);
}
static ChildResult run_index_recording(const Prop& p, uint64_t seed, uint64_t i) {
	return in_child([&]() {
		Src s(case_seed(seed, p, i), i); g_case = &s;
		on_death();
		signal(SIGALRM, on_sig); signal(SIGPROF, on_sig); signal(SIGABRT, on_sig);
		std::string msg; Outcome o = run_here(p, s, msg); publish(s, msg); return (int)o;
	}, 20);
}

static std::vector<uint32_t> shrink(const Prop& p, std::vector<uint32_t> best, ChildResult& best_r, double budget_s) {
	auto t0 = Clock::now(); int tries = 0;
	unsigned limit = best_r.timeout ? 4 : 20;
	auto attempt = [&](const std::vector<uint32_t>& c) {
		if (since(t0) > budget_s || tries > 6000) return false;
		++tries;
		ChildResult r = run_choices(p, c, limit);
		if (r.out != FAILED) return false;
		best = r.crash ? c : (r.rec.size() <= c.size() ? r.rec : c); best_r = r; return true;
	};
	bool progress = true;
	while (progress && since(t0) < budget_s && tries <= 6000) {
		progress = false;
		for (size_t len : {32, 16, 8, 4, 3, 2, 1})
			for (size_t i = 0; i + len <= best.size();) {
				std::vector<uint32_t> c(best); c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
				size_t before = best.size();
				if (attempt(c) && best.size() < before) progress = true; else ++i;
				if (since(t0) > budget_s) break;
			}
		for (size_t i = 0; i < best.size(); ++i) {
			if (best[i] == 0) continue;
			std::vector<uint32_t> c(best); c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			uint32_t lo = 0, hi = best.size() > i ? best[i] : 0;
			while (hi > lo + 1 && i < best.size()) {
				uint32_t mid = lo + (hi - lo) / 2; c = best; c[i] = mid;
				if (attempt(c)) { hi = i < best.size() ? best[i] : 0; progress = true; } else lo = mid;
				if (since(t0) > budget_s) break;
			}
			if (i < best.size() && best[i] > 0) { c = best; c[i] -= 1; if (attempt(c)) progress = true; }
			if (since(t0) > budget_s) break;
		}
	}
	return best;
}

static std::string json_str(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
		else o += (char)c;
	}
	return o + "\"";
}

int main(int argc, char** argv) {
	auto t0 = Clock::now();
	std::string id, tier = "quick", evidence, replays = ".", known_file, replay, extra;
	std::vector<std::string> try_bytes; // artifacts of a fuzzing campaign
	uint64_t seed = 1, cases = 0, scale = 1; int jobs = 8; double max_s = 1e9; int salt = 0;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10); else if (a == "--jobs") jobs = atoi(val().c_str());
		else if (a == "--evidence") evidence = val(); else if (a == "--replays") replays = val();
		else if (a == "--known") known_file = val(); else if (a == "--replay") replay = val();
		else if (a == "--max-seconds") max_s = atof(val().c_str()); else if (a == "--extra") extra = val();
		else if (a == "--scale") scale = strtoull(val().c_str(), 0, 10);
		else if (a == "--salt") salt = atoi(val().c_str());
		else if (a == "--try-bytes") try_bytes.push_back(val());
		else id = a;
	}
	const Prop* p = nullptr;
	if (!replay.empty() && id.empty()) { std::ifstream f(replay); std::string w; while (f >> w) if (w == "property") { f >> id; break; } }
	for (auto& q : props()) if (id == q.id) p = &q;
	if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
	if (jobs > 60) jobs = 60;
	char tmpl[] = "/tmp/pbt.XXXXXX"; g_tmp = mkdtemp(tmpl);
	struct Clean { pid_t me = getpid(); ~Clean() { if (getpid() == me) { std::string c = "rm -rf " + g_tmp; if (g_tmp.compare(0, 9, "/tmp/pbt.") == 0) { int rc = system(c.c_str()); (void)rc; } } } } clean;
	sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (salt) seed = mix(seed, (uint64_t)salt);

	if (!replay.empty()) {
		std::ifstream f(replay); std::string line; ChildResult r; bool ran = false;
		while (std::getline(f, line)) {
			std::istringstream ls(line); std::string w; ls >> w;
			if (w == "choices") { std::vector<uint32_t> c; uint32_t x; while (ls >> x) c.push_back(x); r = run_choices(*p, c, 30, true); ran = true; }
			else if (w == "history") { uint64_t sd, a, b; ls >> sd >> a >> b; r = run_history(*p, sd, a, b); ran = true; }
			else if (w == "known") { std::string k, d; ls >> k; for (auto& q : knowns()) if (id == q.id && k == q.key) { r.out = q.still_fails(d) ? FAILED : PASS; r.msg = d; ran = true; } }
		}
		if (!ran) { fprintf(stderr, "no replayable case in %s\n", replay.c_str()); return 2; }
		printf("%s\n%s\n%s\n", r.out == FAILED ? "REPRODUCED" : "not reproduced", r.msg.c_str(), r.notes.c_str());
		return r.out == FAILED ? 1 : 0;
	}

	if (!cases) cases = (tier == "thorough" ? p->thorough : p->quick) * scale;
	hashes = (uint64_t*)mmap(nullptr, cases * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	int violations = 0;
	std::vector<std::string> known_lines;

	// Regression inputs of the recorded findings
	std::set<std::string> listed;
	{
		std::ifstream f(known_file); std::string line;
		while (std::getline(f, line)) {
			std::istringstream ls(line); std::string w, pr, k; ls >> w >> pr >> k;
			if (w == "known:" && pr == "property=" + id && k.compare(0, 4, "key=") == 0) listed.insert(k.substr(4));
		}
	}
	auto write_replay = [&](const std::string& name, const std::string& body) {
		mkdir(replays.c_str(), 0777);
		std::string path = replays + "/" + name; std::ofstream f(path); f << body; return path;
	};
	for (auto& k : knowns()) if (id == k.id) {
		std::string detail;
		if (!k.still_fails(detail)) continue;
		if (listed.count(k.key)) { std::string l = "KNOWN-FINDING: property=" + id + " " + k.key + ": " + detail; printf("%s\n", l.c_str()); known_lines.push_back(l); }
		else {
			std::string path = write_replay(id + "-" + k.key + ".txt", "property " + id + "\nknown " + k.key + "\nmessage " + detail + "\n");
			printf("%s\nVIOLATION property=%s replay=%s\n", detail.c_str(), id.c_str(), path.c_str()); ++violations;
		}
	}

	// Shrinks a failing choice sequence and describes it; false if the choices alone do not fail.
	std::string tail_msg;
	auto minimise = [&](const ChildResult& r, std::string& body) {
		ChildResult r2 = run_choices(*p, r.rec);
		if (r2.out != FAILED) return false;
		std::vector<uint32_t> c = shrink(*p, r.rec, r2, 25); ChildResult rv = run_choices(*p, c, 20, true); if (rv.out == FAILED) r2 = rv;
		body = "property " + id + "\nchoices"; for (uint32_t x : c) body += fmt(" %u", x);
		body += "\nmessage " + r2.msg + "\n"; if (!r2.notes.empty()) body += "case " + r2.notes + "\n"; tail_msg = r2.msg + "\n" + r2.notes;
		return true;
	};
	bool bad_bytes = false;
	for (auto& file : try_bytes) {
		std::ifstream f(file); std::stringstream ss; ss << f.rdbuf();
		ChildResult r = run_bytes(*p, ss.str()); std::string body;
		if (r.out == FAILED && minimise(r, body)) {
			std::string path = write_replay(id + fmt("-%016llx.txt", (unsigned long long)hash_str(body.c_str())), body);
			printf("%s\nVIOLATION property=%s replay=%s\n", tail_msg.c_str(), id.c_str(), path.c_str()); ++violations; bad_bytes = true; break;
		}
	}

	// Workers
	uint64_t chunk = std::max<uint64_t>(20, std::min<uint64_t>(2500, cases / (uint64_t)(jobs * 4)));
	uint64_t next = 0; std::map<pid_t, std::pair<int, std::pair<uint64_t, uint64_t>>> live; std::set<int> slots; for (int i = 0; i < jobs; ++i) slots.insert(i);
	std::map<std::string, uint64_t> tags;
	bool crash = false; std::string crash_msg; if (bad_bytes) cases = 0; uint64_t bad_case = 0, bad_begin = 0, skipped_timeouts = 0; bool bad = false;
	while ((next < cases && !bad && since(t0) < max_s) || !live.empty()) {
		while (next < cases && !bad && !slots.empty() && since(t0) < max_s) {
			int slot = *slots.begin(); slots.erase(slots.begin());
			uint64_t a = next, b = std::min(cases, a + chunk); next = b; sh->cur[slot] = a;
			fflush(stdout);
			pid_t pid = fork();
			if (pid == 0) {
				int fd = open((g_tmp + fmt("/w%d.err", slot)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1);
				std::map<std::string, uint64_t> t; uint64_t disc = 0, done = 0;
				for (uint64_t i = a; i < b; ++i) {
					sh->cur[slot] = i; limit_time(30);
					Src s(case_seed(seed, *p, i), i); s.tags = &t; std::string msg;
					Outcome o = run_here(*p, s, msg); ++done;
					if (o == DISCARDED) { ++disc; continue; }
					if (s.nt) hashes[i] = hash_rec(s.rec);
					if (o == FAILED) {
						if (__sync_bool_compare_and_swap(&sh->failed, 0, 1)) { sh->fail_case = i; sh->fail_chunk_begin = a; snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str()); }
						_exit(1);
					}
				}
				__sync_fetch_and_add(&sh->done, done); __sync_fetch_and_add(&sh->discarded, disc);
				std::ofstream f(g_tmp + fmt("/t%d", slot)); for (auto& x : t) f << x.second << " " << x.first << "\n";
				f.close();
				_exit(0);
			}
			live[pid] = {slot, {a, b}};
		}
		int st; pid_t pid = waitpid(-1, &st, 0);
		if (pid < 0) { if (errno == EINTR) continue; break; }
		auto it = live.find(pid); if (it == live.end()) continue;
		int slot = it->second.first; uint64_t a = it->second.second.first; live.erase(it); slots.insert(slot);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			std::ifstream f(g_tmp + fmt("/t%d", slot)); uint64_t n; std::string name; while (f >> n && std::getline(f, name)) tags[name.substr(1)] += n;
		}
		else if (!bad) {
			if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->failed) { bad = true; bad_case = sh->fail_case; bad_begin = sh->fail_chunk_begin; crash_msg = sh->msg; }
			else if (!sh->failed) {
				bad_case = sh->cur[slot]; bad_begin = a; crash = true;
				bool to = timed_out(st);
				crash_msg = to ? "did not finish within 30 s" : fmt("worker died (status %d)\n", st) + tail_of(g_tmp + fmt("/w%d.err", slot));
				bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
				// an overloaded or memory-starved machine is not a violation: a timeout or kill counts only if it happens again
				if (to || killed) {
					ChildResult r = run_index(*p, seed, bad_case, false);
					if (r.out == FAILED && !(r.crash && !r.timeout && r.msg.find("signal 9") != std::string::npos)) bad = true;
					else { ++skipped_timeouts; crash = false; if (skipped_timeouts > 20) { fprintf(stderr, "too many workers were killed\n"); return 2; } }
				}
				else bad = true;
			}
			if (bad) for (auto& l : live) kill(l.first, SIGKILL);
		}
	}
	if (bad) {
		++violations;
		ChildResult r = crash ? run_index_recording(*p, seed, bad_case) : run_index(*p, seed, bad_case, false);
		std::string body;
		if (r.out == FAILED) {
			if (minimise(r, body)) ;
			else { body = "property " + id + fmt("\nhistory %llu %llu %llu\nmessage ", (unsigned long long)seed, (unsigned long long)bad_case, (unsigned long long)bad_case) + r.msg + "\n"; tail_msg = r.msg; }
		}
		else {
			ChildResult h = run_history(*p, seed, bad_begin, bad_case);
			tail_msg = h.out == FAILED ? h.msg : crash_msg + " (did not reproduce in a fresh process)";
			body = "property " + id + fmt("\nhistory %llu %llu %llu\nmessage ", (unsigned long long)seed, (unsigned long long)bad_begin, (unsigned long long)bad_case) + tail_msg + "\n";
		}
		std::string path = write_replay(id + fmt("-%016llx.txt", (unsigned long long)hash_str(body.c_str())), body);
		printf("%s\nVIOLATION property=%s replay=%s\n", tail_msg.c_str(), id.c_str(), path.c_str());
	}

	// Samples and evidence
	std::vector<std::string> samples;
	uint64_t ran = sh->done, upto = std::min(cases, next);
	if (!bad) for (uint64_t k = 0, tries = 0; samples.size() < 6 && tries < 200 && upto; ++tries) {
		k = mix(seed, 77 + tries) % upto;
		if (!hashes[k]) continue;
		ChildResult r = run_index(*p, seed, k, true); if (!r.notes.empty()) samples.push_back(fmt("case %llu: ", (unsigned long long)k) + r.notes.substr(0, 1200));
	}
	else samples.push_back("failing case: " + tail_msg.substr(0, 2000));
	std::vector<uint64_t> hs; for (uint64_t i = 0; i < upto; ++i) if (hashes[i]) hs.push_back(hashes[i]);
	std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
	if (!evidence.empty()) {
		std::ofstream f(evidence);
		f << "{\n \"property\": " << json_str(id) << ", \"tier\": " << json_str(tier) << ", \"seed\": " << (seed & 0x7fffffff) << ", \"level\": \"exploration\",\n \"coverage\": {\n";
		f << "  \"evaluations\": " << ran << ", \"distinct_nontrivial\": " << hs.size() << ", \"discarded\": " << sh->discarded << ", \"cases_planned\": " << cases << ",\n  \"rule\": " << json_str(p->rule) << ",\n  \"samples\": [";
		for (size_t i = 0; i < samples.size(); ++i) f << (i ? ",\n   " : "\n   ") << json_str(samples[i]);
		f << "],\n  \"classes\": {"; bool first = true;
		for (auto& t : tags) { f << (first ? "" : ", ") << json_str(t.first) << ": " << t.second; first = false; }
		f << "}";
		if (!extra.empty()) { std::ifstream e(extra); std::stringstream ss; ss << e.rdbuf(); if (!ss.str().empty()) f << ",\n  " << ss.str(); }
		f << "\n },\n \"known_findings\": [";
		for (size_t i = 0; i < known_lines.size(); ++i) f << (i ? ", " : "") << json_str(known_lines[i]);
		f << "],\n \"assumptions\": [\"the double-precision reference formulas in /verif/src/ref.cpp are the published ones\", \"compiled with clang 18 -O1 " SANITIZERS ", as in the repository's own offline build otherwise\"],\n";
		f << " \"wall_s\": " << fmt("%.2f", since(t0)) << ", \"violations\": " << violations << "\n}\n";
	}
	printf("%s: %llu cases, %zu distinct non-trivial, %llu discarded, %d violation(s), %.1f s\n", id.c_str(), (unsigned long long)ran, hs.size(), (unsigned long long)(uint64_t)sh->discarded, violations, since(t0));
	return violations ? 1 : 0;
}
#endif
