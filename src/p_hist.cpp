// Histories: C11 purity, C22 rejection of invalid arguments, C23 validity along chains
#include "gen.h"
#include "ops.h"
#include "utils/matrix.h"
#include "utils/colors.h"
#include <atomic>
#include <thread>
#include <cmath>
#include <locale>
#include <memory>
#include <climits>
#include <algorithm>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>

enum { F_CONV, F_ADD, F_MIX, F_SUB, F_AVG, F_PD, F_BLEND, F_CUSTOM, F_HUE, F_DIST, F_COMB, F_ADJ, F_INPLACE, F_ADAPT, F_COPY, N_FAM };
static const char* const FAM[] = {"convert", "add", "mix", "subtract", "average", "Porter-Duff", "blend", "custom blend", "hue blend", "distance", "combination", "adjustment", "adjustment in place", "adaptation", "copy"};
struct Step { int fam = 0, k = 0, t = 0, n = 0, mode = 0; float x = 0, y = 0; bool p = false, q = false; Colors a; cs::white_point* w = nullptr; AdaptArg ad; DistArg da; };
struct Out { Colors c; double d = 0; };
static float custom_fn(float a, float b) { return 0.5f * a + 0.25f * b + 0.125f; }
static Out run(const Step& z) {
	Out o; Color *a = z.a[0], *b = z.a.size() > 1 ? z.a[1] : nullptr;
	switch (z.fam) {
	case F_CONV: o.c = {z.p ? convert(a, z.t) : to_generic(a, z.t)}; break;
	case F_ADD: o.c = {op_add(a, b, z.x, z.y, z.p, z.q)}; break;
	case F_MIX: o.c = {op_mix(a, b, z.x, z.p, z.q)}; break;
	case F_SUB: o.c = {op_sub(a, b, z.x, z.p, z.q)}; break;
	case F_AVG: o.c = {op_average(z.t, z.a, z.p)}; break;
	case F_PD: o.c = {op_pd(z.k, a, b)}; break;
	case F_BLEND: o.c = {op_blend(z.k, a, b, z.p, z.q)}; break;
	case F_CUSTOM: o.c = {op_custom(a, b, z.p, z.q, custom_fn)}; break;
	case F_HUE: o.c = {op_hue(z.k, a, b, z.p, z.q)}; break;
	case F_DIST: o.d = op_dist(z.k, a, b, z.da); break;
	case F_COMB: o.c = op_comb(z.k, a, z.n, z.x, z.mode); break;
	case F_ADJ: o.c = {op_adj(z.k, a, z.x)}; break;
	case F_INPLACE: { Color* c = copy_typed(a); op_adj_inplace(z.k, c, z.x); o.c = {c}; break; }
	case F_ADAPT: o.c = {op_adapt(z.k, a, z.w, z.ad)}; break;
	case F_COPY: { Color* c = copy_typed(a); if (z.p) { c = make(z.t == (int)a->get_color_type() ? snap(a) : snap(a)); assign_typed(c, a); } o.c = {c}; break; }
	}
	return o;
}
static int type_of(const Color* c) { return (int)c->get_color_type(); }
static int result_type(const Step& z) { return z.fam == F_CONV ? z.t : type_of(z.a[0]); }
static std::string show(const Step& z) {
	std::string r = FAM[z.fam]; const char* name = z.fam == F_PD ? PD_NAME[z.k] : z.fam == F_BLEND ? BLEND_NAME[z.k] : z.fam == F_HUE ? HUE_NAME[z.k] : z.fam == F_DIST ? DIST_NAME[z.k] : z.fam == F_COMB ? COMB_NAME[z.k] : z.fam == F_ADJ || z.fam == F_INPLACE ? ADJ_NAME[z.k] : z.fam == F_ADAPT ? ADAPT_NAME[z.k] : "";
	r += std::string(*name ? " " : "") + name + " of"; for (size_t i = 0; i < z.a.size() && i < 5; ++i) r += " " + (i && z.a[i] == z.a[0] ? std::string("itself") : show(z.a[i]));
	if (z.fam == F_CONV) r += std::string(" to ") + TNAME[z.t];
	return r + fmt(" [%.9g %.9g n=%d mode=%d flags %d %d]", z.x, z.y, z.n, z.mode, z.p, z.q);
}
static float g_weight(Src& s) { switch (s.draw(4)) { case 0: return 0.5f; case 1: return s.flip() ? 1.f : 0.f; default: return g_unit(s); } }
// a step with valid arguments on members of the pool; pure: only operations that are functions of their inputs
static Step g_step(Src& s, const Colors& pool, bool pure) {
	Step z; z.fam = (int)s.draw(N_FAM); auto pick = [&]() { return pool[s.draw((uint32_t)pool.size())]; };
	Color* a = pick(); z.a = {a}; int ta = type_of(a);
	auto among = [&](std::function<bool(Color*)> f) { Colors v; for (Color* c : pool) if (f(c)) v.push_back(c); return v[s.draw((uint32_t)v.size())]; };
	auto partner = [&]() { return among([&](Color* c) { return c->get_rgb_color_space() == a->get_rgb_color_space(); }); };
	z.p = s.flip(); z.q = s.flip();
	switch (z.fam) {
	case F_CONV: z.t = g_type(s); break;
	case F_ADD: case F_MIX: case F_SUB: z.x = g_weight(s); z.y = g_weight(s); z.a.push_back(z.q ? among([&](Color* c) { return type_of(c) == ta; }) : pick()); break;
	case F_AVG: { z.t = ta; int n = s.range(0, 4); for (int i = 0; i < n; ++i) z.a.push_back(among([&](Color* c) { return type_of(c) == ta; })); break; }
	case F_PD: z.k = (int)s.draw(N_PD); z.a.push_back(partner()); break;
	case F_BLEND: z.k = (int)s.draw(pure ? (uint32_t)B_DISSOLVE : (uint32_t)N_BLEND); z.a.push_back(partner()); break;
	case F_CUSTOM: z.a.push_back(partner()); break;
	case F_HUE: z.k = (int)s.draw(N_HUE); z.a.push_back(partner()); break;
	case F_DIST: z.k = (int)s.draw(N_DIST); z.a.push_back(pick()); z.da.defaults = s.flip(); break;
	case F_COMB: z.k = (int)s.draw(N_COMB); z.n = s.range(z.k == K_MONO ? 1 : 2, 7); z.mode = (int)s.draw(3); z.x = z.k == K_MONO ? g_unit(s) : (float)s.range(1, 120); break;
	case F_ADJ: case F_INPLACE: z.k = (int)s.draw(N_ADJ); z.x = s.range(-30, 30) / 10.f; if (s.chance(1, 10)) z.x = s.flip() ? 1e9f : -1e9f; break;
	case F_ADAPT: z.k = (int)s.draw(N_ADAPT); z.w = s.chance(1, 3) ? pick()->get_rgb_color_space()->get_white_point() : g_white(s); z.ad.f = 0.8f + s.draw(3) * 0.1f; z.ad.la = s.chance(1, 3) ? 1000.f * (float)s.range(1, 40) : (float)s.range(1, 300); z.ad.given = (int)s.draw(3); break;
	}
	return z;
}
static Val g_start(Src& s, RgbDef* d) {
	int t = g_type(s);
	switch (s.draw(4)) {
	case 0: return g_full(s, t, d);
	case 1: { Val v; v.t = t; v.d = d; uint32_t m = s.draw(16); for (int i = 0; i < NCOMP[t]; ++i) v.c.push_back((float)(m >> i & 1 ? hi_of(t, i) : lo_of(t, i))); v.a = s.chance(1, 3) ? 0.f : 1.f; return v; } // corners of the type
	default: return g_color(s, t, d);
	}
}

// ---- C11 ----
struct DefPrint { RgbDef* d; cs::white_point* w; std::vector<float> v; cs::gamma* g; };
static DefPrint print_of(RgbDef* d) {
	DefPrint p{d, d->get_white_point(), {}, d->get_gamma_curve()};
	for (auto q : {d->get_red_chromaticity_coordinate(), d->get_green_chromaticity_coordinate(), d->get_blue_chromaticity_coordinate(), p.w->get_tristimulus(), p.w->get_chromaticity_coordinate()}) for (float x : q) p.v.push_back(x);
	auto a = d->get_transform_matrix(), b = d->get_inverse_transform_matrix(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { p.v.push_back(a(i, j)); p.v.push_back(b(i, j)); }
	for (float x : {0.f, 0.002f, 0.05f, 0.5f, 1.f}) { p.v.push_back(p.g->gamma_correction(x)); p.v.push_back(p.g->inverse_gamma_correction(x)); }
	return p;
}
static bool same_print(const DefPrint& a, const DefPrint& b) { return a.w == b.w && a.g == b.g && a.v.size() == b.v.size() && memcmp(a.v.data(), b.v.data(), 4 * a.v.size()) == 0; }
struct World {
	Colors pool; std::vector<Val> was; std::vector<DefPrint> defs;
	void add(Color* c) {
		for (Color* p : pool) if (p == c) return;
		pool.push_back(c); was.push_back(snap(c)); RgbDef* d = c->get_rgb_color_space();
		for (auto& p : defs) if (p.d == d) return;
		defs.push_back(print_of(d));
	}
	void check(const char* after, const Color* except = nullptr, RgbDef* dexcept = nullptr) {
		for (size_t i = 0; i < pool.size(); ++i) if (pool[i] != except) { Val v = snap(pool[i]); if (!(v == was[i])) fail("%s: another colour changed from %s to %s", after, show(was[i]).c_str(), show(v).c_str()); }
		for (auto& p : defs) if (p.d != dexcept && !same_print(p, print_of(p.d))) fail("%s: an RGB space changed", after);
	}
};
struct Done { Step z; std::vector<Val> out; double d; };
static void same_out(const Done& r, const Out& o, const char* what) {
	if (o.c.size() != r.out.size()) fail("%s: %zu colours, %zu before", what, o.c.size(), r.out.size());
	for (size_t i = 0; i < o.c.size(); ++i) {
		Val v = snap(o.c[i]), u = r.out[i]; RgbDef *dv = v.d, *du = u.d;
		if (dv != du) { if (r.z.fam != F_ADAPT) fail("%s: another RGB space than before", what); DefPrint x = print_of(dv), y = print_of(du); if (!same_print(x, y)) fail("%s: an RGB space with other contents than before", what); v.d = u.d; }
		if (!(v == u)) fail("%s: colour %zu is %s, before it was %s", what, i, show(v).c_str(), show(u).c_str());
	}
	if (memcmp(&o.d, &r.d, sizeof r.d) != 0 && !(std::isnan(o.d) && std::isnan(r.d))) fail("%s: %.17g, before %.17g", what, o.d, r.d);
}
// copies of true colours may lose an ulp of alpha; what follows from it is no question of purity
static bool twin(const Color* x, const Color* y) { Val a = snap(x), b = snap(y); return a == b && memcmp(&a.a, &b.a, 4) == 0; }
// the same calls again and again: what the hundredth or the ten-thousandth gives is what the first gave
static void endure(Src& s) {
	g_src = nullptr;
	RgbDef* d = g_def(s).d; Colors pool; int n = s.range(1, 3); World w; for (int i = 0; i < n; ++i) { Color* c = make(g_start(s, d)); pool.push_back(c); w.add(c); }
	static const int KINDS[] = {1, 1, 4, 16, 48}; int k = KINDS[s.draw(5)], calls = k == 1 && s.chance(1, 8) ? 70000 : 9000; std::vector<Done> l;
	for (int i = 0; i < k; ++i) {
		Done e; e.z = g_step(s, pool, true); if (e.z.fam == F_AVG && e.z.a.size() > 2) e.z.a.resize(2);
		if (i % 3 == 2) { e.z = Step(); e.z.fam = F_CONV; e.z.a = {pool[0]}; e.z.t = g_type(s); e.z.p = true; }
		s.note("call %d, %s", i + 1, show(e.z).c_str()); s.tag(FAM[e.z.fam]);
		Out o = run(e.z); e.d = o.d; for (Color* c : o.c) e.out.push_back(snap(c)); l.push_back(e);
	}
	clock_t t0 = clock(); double budget = calls > 20000 ? 8 : 3; // slow calls get fewer rounds
	int i = 1; for (; i * k <= calls && (double)(clock() - t0) < budget * CLOCKS_PER_SEC; ++i) for (auto& e : l) { Out o = run(e.z); try { same_out(e, o, ""); } catch (Fail&) { same_out(e, o, fmt("round %d, %s", i + 1, show(e.z).c_str()).c_str()); } }
	w.check("a long run of calls"); s.tag(i * k <= calls ? "endurance cut short" : calls > 20000 ? "endurance 70000 calls" : "endurance 9000 calls"); s.nt = true;
}
// the same calls in two orders in two processes: no call may depend on which similar call came before it
static void write_val(std::string& r, const Val& v, RgbDef* base) {
	auto put = [&](float x) { if (x == 0) x = 0; if (std::isnan(x)) x = NAN; r.append((const char*)&x, 4); };
	put((float)v.t); for (float x : v.c) put(x); put(v.a); put(v.d == base ? 1.f : 0.f); DefPrint p = print_of(v.d); for (float x : p.v) put(x);
}
static std::string outcome(const Step& z) {
	Out o = run(z); std::string r; for (Color* c : o.c) write_val(r, snap(c), z.a[0]->get_rgb_color_space()); double x = std::isnan(o.d) ? NAN : o.d; r.append((const char*)&x, 8); return r;
}
static void orders(Src& s) {
	DefGen g = g_def(s); RgbDef *d = g.d, *e = g_other(s, g).d; std::vector<Step> l; int n = s.range(2, 24); Val v = g_start(s, d); Color* first = make(v); Val second = g_start(s, d); Color* b = make(second);
	Step z = g_step(s, {first}, true); size_t args = z.a.size(); s.tag(FAM[z.fam]);
	for (int i = 0; i < n; ++i) {
		Step u = z; Val x = v, y = second; 
		auto vary = [&](Val& q) { switch (s.draw(6)) {
			case 0: q.a = s.flip() ? (is_true(q.t) ? 128.f : 0.5f) : q.a; break;
			case 1: q.d = e; break;
			case 2: if (z.fam != F_ADD && z.fam != F_MIX && z.fam != F_SUB && z.fam != F_AVG) { int t = g_type(s); if (NCOMP[t] == NCOMP[q.t] && is_true(t) == is_true(q.t)) q.t = t; } break;
			default: { int j = (int)s.draw((uint32_t)NCOMP[q.t]); q.c[j] = (float)(lo_of(q.t, j) + (hi_of(q.t, j) - lo_of(q.t, j)) * s.draw(9) / 8.0); if (is_true(q.t)) q.c[j] = std::round(q.c[j]); }
		} };
		vary(x); if (s.flip()) vary(y);
		if (args > 1 && (z.fam == F_PD || z.fam == F_BLEND || z.fam == F_CUSTOM || z.fam == F_HUE)) y.d = x.d;
		if (args > 1 && z.fam == F_AVG) { y.t = x.t; y.c = x.c; std::reverse(y.c.begin(), y.c.end()); for (int j = 0; j < NCOMP[y.t]; ++j) y.c[j] = std::min(std::max(y.c[j], (float)lo_of(y.t, j)), (float)hi_of(y.t, j)); u.t = x.t; }
		u.a = {make(x)}; if (args > 1) u.a.push_back(((z.fam == F_ADD || z.fam == F_MIX || z.fam == F_SUB) && z.q) || s.flip() ? u.a[0] : make(y));
		if (s.chance(1, 4)) { u.x = z.x == 0.5f ? 0.25f : 0.5f; if (z.fam == F_COMB && z.k != K_MONO) u.x = 45; }
		if (z.fam == F_CONV && s.chance(1, 4)) u.t = g_type(s);
		if (z.fam == F_ADAPT && s.flip()) { u.w = g_white(s); }
		if (z.fam == F_AVG && u.a.size() > 1 && type_of(u.a[0]) != type_of(u.a[1])) u.a.resize(1);
		if (u.fam == F_AVG) u.t = type_of(u.a[0]);
		l.push_back(u); s.note("call %d, %s", i + 1, show(u).c_str());
	}
	(void)b; g_src = nullptr; int fd[2]; if (pipe(fd) != 0) discard();
	fflush(stdout); pid_t pid = fork(); if (pid < 0) { close(fd[0]); close(fd[1]); discard(); }
	if (pid == 0) { close(fd[0]); std::vector<std::string> r(l.size()); try { for (size_t i = l.size(); i-- > 0;) r[i] = outcome(l[i]); } catch (...) { _exit(1); }
		std::string all; for (auto& q : r) { uint32_t m = (uint32_t)q.size(); all.append((const char*)&m, 4); all += q; }
		for (size_t at = 0; at < all.size();) { ssize_t k = write(fd[1], all.data() + at, all.size() - at); if (k <= 0) _exit(1); at += (size_t)k; } _exit(0); }
	close(fd[1]); std::string all; char buf[65536]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) all.append(buf, (size_t)k);
	close(fd[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	std::vector<std::string> mine; for (auto& u : l) mine.push_back(outcome(u));
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) discard();
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) fail("the calls in reverse order did not finish (status %d)", st);
	size_t at = 0; for (size_t i = 0; i < l.size(); ++i) { uint32_t m; memcpy(&m, all.data() + at, 4); at += 4; if (all.compare(at, m, mine[i]) != 0) fail("call %zu of %zu, %s: another result when the calls are made in reverse order in another process", i + 1, l.size(), show(l[i]).c_str()); at += m; }
	s.tag("two orders"); s.nt = n >= 3;
}
static void c11(Src& s) {
	switch (s.strat(128)) { case 127: endure(s); return; case 126: case 125: case 124: case 123: orders(s); return; }
	World w; int nd = s.range(1, 2); std::vector<RgbDef*> ds; for (int i = 0; i < nd; ++i) ds.push_back(i && s.flip() ? g_related(s, ds[0]) : g_def(s).d);
	int n0 = s.range(2, 4); for (int i = 0; i < n0; ++i) w.add(make(g_start(s, ds[s.draw((uint32_t)nd)])));
	std::vector<Done> hist; Colors fresh; int steps = s.range(1, 12); bool self = false;
	for (int i = 0; i < steps; ++i) {
		Step z = g_step(s, w.pool, true); std::string t = fmt("step %d, %s", i + 1, show(z).c_str()); s.note("%s", t.c_str()); s.tag(FAM[z.fam]);
		self = self || (z.a.size() > 1 && z.a[1] == z.a[0]);
		Out o = run(z); Done d; d.z = z; d.d = o.d;
		w.check(t.c_str());
		for (Color* c : o.c) { if (!c) fail("%s: no colour", t.c_str()); d.out.push_back(snap(c)); bool old = false; for (Color* p : w.pool) old = old || p == c; if (!old) fresh.push_back(c); 
			bool may = (z.fam == F_CONV && type_of(z.a[0]) == z.t) || (z.fam == F_COMB && z.k != K_COMPLEMENT) || (z.fam == F_ADJ && z.x == 0) || (z.fam == F_ADAPT && z.w == z.a[0]->get_rgb_color_space()->get_white_point());
			if (old && !may) fail("%s: the result is an object that existed before", t.c_str()); }
		for (Color* c : o.c) if (w.pool.size() < 24) w.add(c);
		hist.push_back(d);
	}
	// any earlier call again: on the same objects, then on copies
	for (int k = 0; k < 3; ++k) {
		size_t i = s.draw((uint32_t)hist.size()); const Done& d = hist[i];
		same_out(d, run(d.z), fmt("step %zu again after %d steps, %s", i + 1, steps, show(d.z).c_str()).c_str());
		Step z = d.z; for (size_t j = 0; j < z.a.size(); ++j) { size_t first = 0; while (d.z.a[first] != d.z.a[j]) ++first; z.a[j] = first < j && (s.flip() || (z.fam == F_DIST && z.k == D_00)) ? z.a[first] : copy_typed(d.z.a[j]); }
		bool twins = true; for (size_t j = 0; j < z.a.size(); ++j) twins = twins && (z.a[j]->get_rgb_color_space() != d.z.a[j]->get_rgb_color_space() || twin(z.a[j], d.z.a[j]));
		if (!twins) s.tag("inexact copies"); else same_out(d, run(z), fmt("step %zu again on copies after %d steps, %s", i + 1, steps, show(d.z).c_str()).c_str());
		w.check("repeating a step");
	}
	// results are independent objects
	for (int k = 0; k < 2 && !w.pool.empty(); ++k) {
		size_t i = s.draw((uint32_t)w.pool.size()); Color* c = w.pool[i]; int t = type_of(c), j = (int)s.draw((uint32_t)NCOMP[t]); float v = (float)(lo_of(t, j) + (hi_of(t, j) - lo_of(t, j)) * s.draw(17) / 16.0);
		named_set(c, j, v); if (s.flip()) c->alpha(is_true(t) ? 64.f : 0.25f);
		w.check(fmt("changing %s", show(w.was[i]).c_str()).c_str(), c); w.was[i] = snap(c);
	}
	for (auto& p : w.defs) if (std::find(ds.begin(), ds.end(), p.d) == ds.end()) { // spaces made by adaptations
		p.d->set_white_point(g_white(s)); w.check("changing the white of an adapted colour's RGB space", nullptr, p.d); p = print_of(p.d); s.tag("adapted RGB space changed"); break; }
	// a call depends on what a space is now, not on what it was: on the changed space it gives what it gives on a newly built equal one
	if (s.flip()) {
		RgbDef* d = ds[s.draw((uint32_t)nd)]; std::vector<size_t> fit; for (size_t i = 0; i < hist.size(); ++i) { bool all = true; for (Color* c : hist[i].z.a) all = all && c->get_rgb_color_space() == d; if (all) fit.push_back(i); }
		Step z; if (!fit.empty() && s.chance(3, 4)) z = hist[fit[s.draw((uint32_t)fit.size())]].z; else z = g_step(s, {make(g_start(s, d)), make(g_start(s, d))}, true);
		if (z.fam == F_ADAPT && z.w == d->get_white_point()) z.w = new cs::white_point(*z.w);
		std::string t = show(z); run(z);
		if (s.chance(1, 3)) { cs::gamma_presets gp; cs::gamma* c = s.flip() ? gp.gamma1_8() : s.flip() ? gp.gammaRomm() : new cs::gamma(); d->set_gamma_curve(c); t = "after replacing the curve of its RGB space: " + t; s.tag("curve replaced"); }
		else { d->set_white_point(g_white(s)); t = "after replacing the white of its RGB space: " + t; s.tag("white replaced"); }
		s.note("%s", t.c_str());
		RgbDef* e = new RgbDef(d->get_red_x(), d->get_red_y(), d->get_green_x(), d->get_green_y(), d->get_blue_x(), d->get_blue_y(), d->get_white_point(), d->get_gamma_curve());
		DefPrint pd = print_of(d), pe = print_of(e); // whether the two are rightly equal is C05's question
		if (pd.v.size() == pe.v.size() && memcmp(pd.v.data(), pe.v.data(), 4 * pd.v.size()) == 0) {
		Step u = z; for (size_t j = 0; j < u.a.size(); ++j) { size_t first = 0; while (z.a[first] != z.a[j]) ++first; if (first < j) { u.a[j] = u.a[first]; continue; } Val v = snap(z.a[j]); v.d = e; u.a[j] = make(v); }
		for (size_t j = 0; j < u.a.size(); ++j) { Val a = snap(z.a[j]), b = snap(u.a[j]); if (memcmp(&a.a, &b.a, 4) != 0) { s.tag("inexact copies"); u.a = z.a; } }
		bool twins = u.a != z.a; Out o = run(z), n = run(twins ? u : z);
		if (o.c.size() != n.c.size() || (memcmp(&o.d, &n.d, sizeof o.d) != 0 && !(std::isnan(o.d) && std::isnan(n.d)))) fail("%s: %zu colours and %.17g, with a new equal space %zu and %.17g", t.c_str(), o.c.size(), o.d, n.c.size(), n.d);
		for (size_t i = 0; i < o.c.size(); ++i) { Val x = snap(o.c[i]), y = snap(n.c[i]); if (twins && z.fam != F_ADAPT && (x.d != d || y.d != e)) fail("%s: result in another RGB space", t.c_str()); y.d = x.d; if (!(x == y)) fail("%s: colour %zu is %s, with a new equal space %s", t.c_str(), i, show(x).c_str(), show(y).c_str()); }
		} else s.tag("rebuilt space differs");
	}
	s.tag(fmt("%d-%d steps", steps / 4 * 4, steps / 4 * 4 + 3)); if (self) s.tag("same object twice");
	s.nt = steps >= 3;
}
PROPERTY("C11", c11, 60000, 1500000, "histories of 1 to 12 operations of every kind on a growing pool of colours of all types under one or two RGB spaces, the same object drawn twice at times; after every step all colours and RGB spaces are compared bit for bit with what they were, then earlier steps are repeated on the same objects and on copies, and results changed; 1 case in 128 repeats up to 48 calls 9000 or 70000 times in all, 4 in 128 make 2 to 24 similar calls in two orders in two processes; non-trivial: three or more steps or calls, or a long repetition");

// ---- C23 ----
static void c23(Src& s) {
	Colors pool; int nd = s.range(1, 2); std::vector<RgbDef*> ds; for (int i = 0; i < nd; ++i) ds.push_back(i && s.flip() ? g_related(s, ds[0]) : g_def(s).d);
	int n0 = s.range(1, 4); for (int i = 0; i < n0; ++i) { pool.push_back(make(g_start(s, ds[s.draw((uint32_t)nd)]))); s.note("start %s", show(pool.back()).c_str()); check_valid(pool.back(), "start"); }
	int steps = s.range(1, 25), kinds = 0; uint32_t seen = 0;
	for (int i = 0; i < steps; ++i) {
		if (s.chance(1, 12)) { // a setter with any number
			Color* c = pool[s.draw((uint32_t)pool.size())]; int t = type_of(c), j = (int)s.draw((uint32_t)NCOMP[t] + 1); float v = g_wild(s);
			std::string w = fmt("step %d, setting component %d of %s to %.9g", i + 1, j, show(c).c_str(), v); s.note("%s", w.c_str());
			if (j < NCOMP[t]) named_set(c, j, v); else c->alpha(v);
			check_valid(c, w.c_str()); s.tag("setter"); continue;
		}
		Step z = g_step(s, pool, false); std::string w = fmt("step %d, %s", i + 1, show(z).c_str()); s.note("%s", w.c_str()); s.tag(FAM[z.fam]); seen |= 1u << z.fam;
		RgbDef* d = z.a[0]->get_rgb_color_space(); int t = result_type(z);
		Out o = run(z); if (z.fam == F_DIST) continue;
		if (o.c.empty()) fail("%s: no colours", w.c_str());
		for (Color* c : o.c) { check_valid(c, w.c_str()); if (type_of(c) != t) fail("%s: result is %s", w.c_str(), show(c).c_str()); if (z.fam != F_ADAPT && c->get_rgb_color_space() != d) fail("%s: result %s is in another RGB space", w.c_str(), show(c).c_str()); }
		for (Color* c : o.c) { if (std::find(pool.begin(), pool.end(), c) != pool.end()) continue; if (pool.size() < 12) pool.push_back(c); else pool[s.draw((uint32_t)pool.size())] = c; }
	}
	for (Color* c : pool) check_valid(c, "at the end");
	for (; seen; seen &= seen - 1) ++kinds;
	s.tag(kinds < 3 ? "1-2 kinds of operation" : kinds < 7 ? "3-6 kinds of operation" : "7 or more kinds of operation");
	s.nt = kinds >= 3;
}
PROPERTY("C23", c23, 60000, 2000000, "chains of 1 to 25 operations of every kind with valid arguments and setters with any number, on a pool of colours of all types anywhere in their ranges, on their corners, transparent and out of gamut, under predefined and random RGB spaces; every colour checked after each step, under address and undefined-behaviour sanitizers; non-trivial: three or more kinds of operation");

// ---- C25: calls made by several threads at once ----
// What a thread does is drawn beforehand; the sanitizer watches for accesses that are not ordered, and every outcome has to be
// what the same call gives alone afterwards. Threads share the colours of the pool and their spaces, which nobody changes, and
// may change objects of their own.
static std::string alone(const Step& z) { try { return outcome(z); } catch (const Fail& f) { return "failed: " + f.msg; } catch (...) { return "error"; } }
struct Made; static std::string do_made(const Made& m);
struct Job { Step z; std::shared_ptr<Made> m; bool own = false; int j = 0; float v = 0, a = 0; cs::white_point* w = nullptr; std::string got; };
static std::string do_job(const Job& b) {
	if (b.m) return do_made(*b.m);
	if (!b.own) return alone(b.z);
	Step z = b.z; // on copies of its own, the first of which is changed, in a space of its own
	try {
		for (size_t i = 0; i < z.a.size(); ++i) { size_t f = 0; while (b.z.a[f] != b.z.a[i]) ++f; z.a[i] = f < i ? z.a[f] : copy_typed(b.z.a[i]); }
		if (b.w) { RgbDef* d = new RgbDef(*z.a[0]->get_rgb_color_space()); d->set_white_point(b.w); for (Color* c : z.a) c->set_rgb_color_space(d); }
		named_set(z.a[0], b.j, b.v); z.a[0]->alpha(b.a);
	} catch (...) { return "error in preparation"; }
	return alone(z);
}
// Things a thread makes by itself from plain numbers, and what it reads of them
enum { M_HEX, M_INT, M_NAMED, M_SPACE, M_WHITE, M_MATRIX, M_COMPARE, M_CURVE, M_OWN_SPACE, M_BAD_INDEX, N_MAKE };
static const char* const MAKE[] = {"colour from a hex string", "colour from an integer", "named colour", "preset space", "white point", "matrix", "comparison of shared objects", "curve built up", "space built", "index out of range"};
struct Made { int kind = -1, k = 0; uint32_t code = 0; std::vector<float> f; RgbDef *d = nullptr, *e = nullptr; Color *a = nullptr, *b = nullptr; };
static void put(std::string& o, double v) { o += fmt("%a ", v); }
static void put(std::string& o, const Color* c) { Val v = snap(c); o += fmt("%d ", v.t); for (float x : v.c) put(o, x); put(o, v.a); }
static void put(std::string& o, matrix<float> m) { o += fmt("%dx%d ", m.rows(), m.columns()); for (auto& r : m.values()) for (float x : r) put(o, x); }
static void put(std::string& o, cs::white_point* w) { for (float x : w->get_tristimulus()) put(o, x); for (float x : w->get_chromaticity_coordinate()) put(o, x); }
static void put(std::string& o, cs::gamma* g, const std::vector<float>& xs) { for (float x : xs) { put(o, g->gamma_correction(x)); put(o, g->inverse_gamma_correction(x)); } }
static void put(std::string& o, RgbDef* d, const std::vector<float>& xs) { put(o, d->get_transform_matrix()); put(o, d->get_inverse_transform_matrix()); put(o, d->get_white_point()); put(o, d->get_gamma_curve(), xs); for (auto p : {d->get_red_chromaticity_coordinate(), d->get_green_chromaticity_coordinate(), d->get_blue_chromaticity_coordinate()}) for (float x : p) put(o, x); }
static RgbDef* fresh_space(int i) { cs::rgb_color_space_definition_presets p; switch (i) { case 0: return p.sRGB(); case 1: return p.adobeRGB(); case 2: return p.rommRGB(); case 3: return p.uhdtv(); case 4: return p.cieXYZ(); case 5: return p.oldNTSC(); case 6: return p.betaRGB(); default: return p.dci_p3(); } }
static cs::gamma* fresh_curve(int i) { cs::gamma_presets p; switch (i) { case 0: return p.sRGB(); case 1: return p.gamma2_2(); case 2: return p.gammaRomm(); case 3: return p.gammaUHDTV(); case 4: return p.gammaAdobe(); default: return p.gamma1_8(); } }
static std::string do_made(const Made& m) {
	std::string o;
	try {
		switch (m.kind) {
		case M_HEX: { cs::rgb_truecolor c(fmt(m.k & 1 ? "#%08X" : "%06x", m.k & 1 ? m.code : m.code & 0xffffff).substr(m.k & 2 ? 1 : 0), m.d); put(o, &c); break; }
		case M_INT: { cs::rgb_truecolor c((int)m.code, m.d); put(o, &c); break; }
		case M_NAMED: { static const HexcodeColors N[] = {AliceBlue, Brown, DarkOrange, Gray, Ivory, MediumBlue, Tomato, Black}; predefined_color p(N[m.k & 7], m.d); for (Color* c : std::initializer_list<Color*>{p.get_rgb_true(), p.get_rgb_deep(), p.get_grey_true(), p.get_grey_deep(), p.get_cmyk(), p.get_hsv(), p.get_hsl(), p.get_xyz(), p.get_xyy(), p.get_lab()}) put(o, c); break; }
		case M_SPACE: put(o, fresh_space(m.k & 7), m.f); break;
		case M_WHITE: { cs::white_point w(0.2f + 0.2f * m.f[0], 0.2f + 0.2f * m.f[1]), v(0.5f + m.f[1], 1.f, 0.5f + m.f[2]), u(w); put(o, &w); put(o, &v); put(o, &u); put(o, (double)(u == w)); put(o, (double)(v == w)); break; }
		case M_MATRIX: { int n = 2 + m.k % 3; std::vector<float> v; for (int i = 0; i < n * n; ++i) v.push_back(m.f[(size_t)i % m.f.size()] * (float)(i + 1) + (i % (n + 1) ? 0.f : 3.f)); matrix<float> x(n, v); put(o, x); put(o, (double)x.determinante()); put(o, x.invert()); put(o, x.adjoint()); put(o, x * x.transpose()); put(o, x + x * 2.f); x.resize(n + 1, n); put(o, x); break; }
		case M_COMPARE: put(o, (double)(*m.a == *m.b)); put(o, (double)(*m.a != *m.b)); put(o, (double)(*m.d->get_white_point() == *m.e->get_white_point())); put(o, (double)(*m.d->get_gamma_curve() == *m.e->get_gamma_curve())); put(o, m.d, m.f); break;
		case M_CURVE: { cs::gamma g(*(m.k & 1 ? m.d->get_gamma_curve() : fresh_curve(m.k >> 1))); put(o, &g, m.f); float k = m.f[0]; g.add_gamma_curve_part(new cs::gamma_part([k](float x) { return x * k; }, m.f[1])); g.add_inverse_gamma_curve_part(new cs::gamma_part([k](float x) { return x + k; }, m.f[2])); put(o, &g, m.f); break; }
		case M_OWN_SPACE: { RgbDef d(0.6f + 0.1f * m.f[0], 0.33f, 0.25f, 0.6f + 0.1f * m.f[1], 0.15f, 0.06f + 0.05f * m.f[2], m.k & 1 ? m.d->get_white_point() : new cs::white_point(0.3f + 0.05f * m.f[0], 0.32f), m.k & 2 ? m.d->get_gamma_curve() : fresh_curve(m.k >> 2)); put(o, &d, m.f); RgbDef e(d); e.set_white_point(m.e->get_white_point()); put(o, &e, m.f); break; }
		default: { matrix<float> x(2, 2, m.f[0]); o = "no error"; try { x(m.k, 2 - m.k); } catch (const std::exception& e) { o = e.what(); } break; }
		}
	} catch (const Fail& f) { o += "failed: " + f.msg; } catch (const std::exception& e) { o += std::string("error ") + e.what(); } catch (const std::exception* e) { o += std::string("error ") + e->what(); } catch (...) { o += "error"; }
	return o;
}
// std::ctype<char> of this standard library fills a table of its own, unordered, as characters are asked for (std::regex does); fill it beforehand
static bool fill_ctype() { auto& f = std::use_facet<std::ctype<char>>(std::locale()); char t[256], u[256]; for (int i = 0; i < 256; ++i) { t[i] = (char)i; f.narrow((char)i, 0); f.narrow((char)i, 1); f.widen((char)i); } f.narrow(t, t + 256, 0, u); f.widen(t, t + 256, u); return true; }
static void c25(Src& s) {
	static const bool filled = fill_ctype(); (void)filled;
	World w; int nd = s.range(1, 2); std::vector<RgbDef*> ds; for (int i = 0; i < nd; ++i) ds.push_back(i && s.flip() ? g_related(s, ds[0]) : g_def(s).d);
	bool cold = s.flip(); // nothing has used the spaces before the threads do
	int n0 = s.range(2, 4); for (int i = 0; i < n0; ++i) { Val v = cold ? g_full(s, g_type(s), ds[s.draw((uint32_t)nd)]) : g_start(s, ds[s.draw((uint32_t)nd)]); Color* c = make(v); if (cold) { w.pool.push_back(c); w.was.push_back(snap(c)); } else w.add(c); }
	if (cold) s.tag("spaces not used before");
	int nt = s.range(2, 3), n = s.range(1, 4); bool alike = s.flip(); std::vector<std::vector<Job>> l((size_t)nt); Step common = g_step(s, w.pool, true); int same = 0;
	for (int t = 0; t < nt; ++t) for (int i = 0; i < n; ++i) {
		Job b; b.z = alike && i == 0 ? common : g_step(s, w.pool, true);
		if (alike && i == 0 && t && s.flip() && (b.z.fam == F_CONV || b.z.fam == F_COMB || b.z.fam == F_ADJ || b.z.fam == F_INPLACE || b.z.fam == F_COPY || b.z.fam == F_ADAPT)) b.z.a = {w.pool[s.draw((uint32_t)w.pool.size())]};
		if ((b.z.fam == F_ADD || b.z.fam == F_MIX || b.z.fam == F_SUB) && s.chance(1, 8)) b.z.x = 1.5f; // refused
		if (s.chance(1, 4)) { // something of its own, or read from what is shared
			std::shared_ptr<Made> m(new Made); b.m = m; m->kind = alike && i == 0 && t && l[0][0].m ? l[0][0].m->kind : (int)s.draw(N_MAKE); m->k = (int)s.draw(24); m->code = s.draw(1u << 16) << 16 | s.draw(1u << 16);
			for (int j = 0; j < 4; ++j) m->f.push_back(g_unit(s));
			m->a = w.pool[s.draw((uint32_t)w.pool.size())]; m->b = w.pool[s.draw((uint32_t)w.pool.size())]; m->d = m->a->get_rgb_color_space(); m->e = m->b->get_rgb_color_space();
			s.note("thread %d: %s %d %08x %.9g %.9g %.9g %.9g of %s, %s", t + 1, MAKE[m->kind], m->k, m->code, m->f[0], m->f[1], m->f[2], m->f[3], show(m->a).c_str(), show(m->b).c_str()); s.tag(MAKE[m->kind]);
			l[(size_t)t].push_back(b); continue;
		}
		b.own = s.chance(1, 3);
		if (b.own) { int c = type_of(b.z.a[0]); b.j = (int)s.draw((uint32_t)NCOMP[c]); b.v = (float)(lo_of(c, b.j) + (hi_of(c, b.j) - lo_of(c, b.j)) * s.draw(17) / 16.0); b.a = (is_true(c) ? 255 : 1) * s.draw(5) / 4.f; if (s.flip()) b.w = g_white(s); }
		s.note("thread %d%s: %s", t + 1, b.own ? (b.w ? " on its own copies, changed, in its own space" : " on its own copies, changed") : "", show(b.z).c_str()); s.tag(FAM[b.z.fam]); if (b.own) s.tag("objects of its own");
		l[(size_t)t].push_back(b);
	}
	for (int t = 1; t < nt; ++t) for (auto& x : l[0]) for (auto& y : l[(size_t)t]) same += x.m || y.m ? x.m && y.m && x.m->kind == y.m->kind : x.z.fam == y.z.fam && x.z.k == y.z.k && x.z.t == y.z.t;
	g_src = nullptr; std::atomic<int> ready(0);
	std::vector<std::thread> ts; for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]() { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield(); for (Job& b : l[(size_t)t]) b.got = do_job(b); });
	for (auto& t : ts) t.join();
	w.check("calls from several threads");
	for (int t = 0; t < nt; ++t) for (size_t i = 0; i < l[(size_t)t].size(); ++i) { const Job& b = l[(size_t)t][i]; std::string r = do_job(b); if (r != b.got) fail("thread %d, call %zu, %s: not the result the call gives alone%s", t + 1, i + 1, b.m ? MAKE[b.m->kind] : show(b.z).c_str(), b.m ? (": " + b.got + " instead of " + r).c_str() : ""); }
	s.tag(fmt("%d threads", nt).c_str()); s.nt = same > 0; if (same) s.tag("the same operation in two threads");
}
PROPERTY("C25", c25, 40000, 2000000, "2 or 3 threads that start together and make 1 to 4 calls each, of every kind of operation, on a shared pool of colours and RGB spaces or on changed copies of their own, or make and read colours, whites, curves, spaces and matrices of their own; compiled with the thread sanitizer; every outcome compared with the same call made alone afterwards; non-trivial: two threads make calls of the same operation");

// ---- C22 ----
static float bad_weight(Src& s) { static const float b[] = {-1.f, 2.f, -1e-3f, 1.001f, -1e-45f, 1.00000012f, -1e30f, 1e30f, -INFINITY, INFINITY, -0.5f, 100.f}; return b[s.draw(12)]; }
static float edge_weight(Src& s) { static const float g[] = {0.f, 1.f, -0.f, 0.99999994f, 1e-45f}; return g[s.draw(5)]; }
static void c22(Src& s) {
	int cls = (int)s.strat(12), t = (int)s.strat(NT); RgbDef* d = s.chance(1, 3) ? g_def(s).d : preset_def(0);
	World w; w.add(make(g_color(s, t, d))); w.add(make(g_color(s, t, d))); w.add(make(g_color(s, g_type(s), d)));
	RgbDef* d2 = s.chance(1, 3) ? g_related(s, d) : g_def(s).d; if (d2 == d) d2 = new RgbDef(*d); // an equal definition is still another one
	Color *a = w.pool[0], *b = w.pool[1], *x = w.pool[2], *other = make(g_color(s, g_type(s), d2)); w.add(other);
	Step z = g_step(s, {a, b, x}, true); Done before; before.z = z; { Out o = run(z); for (Color* c : o.c) before.out.push_back(snap(c)); before.d = o.d; }
	int rounds = s.range(1, 4);
	for (int i = 0; i < rounds; ++i) {
		std::string what; std::function<void()> call; bool bad = s.chance(2, 3), typed = s.flip(), al = s.flip(); Color* y = typed ? b : x;
		auto W = [&]() { return bad ? bad_weight(s) : edge_weight(s); };
		switch (cls) {
		case 0: { float u = W(), v = s.flip() ? edge_weight(s) : g_unit(s); if (s.flip()) std::swap(u, v); what = fmt("%sadd with weights %.9g, %.9g", typed ? "typed " : "", u, v); call = [=]() { op_add(a, y, u, v, al, typed); }; break; }
		case 1: { float u = W(); what = fmt("%smix with weight %.9g", typed ? "typed " : "", u); call = [=]() { op_mix(a, y, u, al, typed); }; break; }
		case 2: { float u = W(); what = fmt("%ssubtract with weight %.9g", typed ? "typed " : "", u); call = [=]() { op_sub(a, y, u, al, typed); }; break; }
		case 3: { std::vector<Color*> v; if (!bad) v.push_back(a); what = fmt("average of %zu colours", v.size()); call = [=]() { op_average(t, v, al); }; break; }
		case 4: { static const int no[] = {1, 0, -1, 361, 1000, INT_MIN, INT_MAX, -360}, yes[] = {2, 360, 3, 359}; int n = bad ? no[s.draw(8)] : yes[s.draw(4)]; what = fmt("combination of %d colours", n); call = [=]() { op_comb(K_COMBINATION, a, n, 0, 0); }; break; }
		case 5: case 6: { static const float no[] = {0.f, 121.f, 120.00001f, -0.f, 180.f, 360.f, 1e30f, INFINITY}, yes[] = {120.f, 1e-3f, 119.99999f, 30.f}; float v = bad ? no[s.draw(8)] : yes[s.draw(4)]; int k = cls == 5 ? K_ANALOGOUS : K_SPLIT; what = fmt("%s with %.9g degrees", COMB_NAME[k], v); call = [=]() { op_comb(k, a, 0, v, 0); }; break; }
		case 7: { float v = bad ? bad_weight(s) : edge_weight(s); int m = (int)s.draw(3), n = s.range(1, 4); what = fmt("monochromatic with amount %.9g, %d colours", v, n); call = [=]() { op_comb(K_MONO, a, n, v, m); }; break; }
		case 8: { static const int no[] = {0, -1, -100, INT_MIN}; int n = bad ? no[s.draw(4)] : s.range(1, 3), m = (int)s.draw(3); what = fmt("monochromatic with %d colours", n); call = [=]() { op_comb(K_MONO, a, n, 0.5f, m); }; break; }
		case 9: { static const int no[] = {3, -1, 100, INT_MIN, INT_MAX}; int m = bad ? no[s.draw(5)] : (int)s.draw(3), n = s.range(2, 4); what = fmt("monochromatic with mode %d", m); call = [=]() { op_comb(K_MONO, a, n, 0.5f, m); }; break; }
		case 10: case 11: {
			Color *p = s.flip() ? a : x, *q = s.flip() ? b : s.flip() ? p : x;
			if (bad) { switch (s.draw(5)) { case 0: p = nullptr; break; case 1: q = nullptr; break; case 2: p = q = nullptr; break; case 3: q = other; break; default: p = other; q = s.flip() ? a : x; } }
			int k = (int)s.draw(cls == 10 ? (uint32_t)N_PD : (uint32_t)N_BLEND + 1), form = (int)s.draw(2);
			what = std::string(cls == 10 ? PD_NAME[k] : k == N_BLEND ? "custom blend" : BLEND_NAME[k]) + " of " + (p ? p == other ? "a colour of another RGB space" : "a colour" : "nothing") + " and " + (q ? q == other ? "a colour of another RGB space" : "a colour" : "nothing");
			call = [=]() { if (cls == 10) op_pd(k, p, q); else if (k == N_BLEND) op_custom(p, q, al, typed, custom_fn); else if (form) op_blend_def(k, p, q); else op_blend(k, p, q, al, typed); };
			break; }
		}
		s.note("%s, on %s, %s, %s and %s", what.c_str(), show(a).c_str(), show(b).c_str(), show(x).c_str(), show(other).c_str());
		std::string msg; bool threw = throws(call, &msg);
		if (threw != bad) fail("%s of %s is %s%s", what.c_str(), show(a).c_str(), threw ? "rejected: " : "accepted", threw ? msg.c_str() : "");
		if (threw && (msg.empty() || msg == "?")) fail("%s: the error says nothing", what.c_str());
		w.check(what.c_str()); s.tag(bad ? "rejected" : "accepted at the limit"); s.nt = s.nt || bad;
		if (s.flip()) cls = (int)s.draw(12);
	}
	same_out(before, run(z), ("afterwards " + show(z)).c_str());
	w.check("the valid call");
}
PROPERTY("C22", c22, 120000, 2000000, "12 classes of checked arguments and 15 types in turn, one to four calls in a row, two thirds outside and one third just inside or on the limit, then a valid call made before the series is repeated; colours, RGB spaces and the valid result are compared bit for bit; non-trivial: at least one invalid call");
