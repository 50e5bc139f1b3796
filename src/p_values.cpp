// C01 ranges, C02 value semantics, C03 hex codes and named colours
#include "gen.h"
#include "utils/colors.h"
#include <climits>
#include <cmath>
#include <cstring>

static double lim(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
// expected stored value of component i of type t, NaN when any value in range will do
static double stored(int t, int i, float v) {
	if (std::isnan(v)) return NAN;
	if (is_hsx(t) && i == 0) {
		if (std::isinf(v)) return NAN;
		double h = fmod((double)v, 360.0); if (h < 0) h += 360; return h > 359 ? 359 : h;
	}
	return lim(v, lo_of(t, i), hi_of(t, i));
}
static void check_comp(const Val& v, int i, double exp, double lo, double hi, const char* what) {
	if (!(v.c[i] >= lo && v.c[i] <= hi)) fail("%s: component %d of %s is outside [%g,%g]", what, i, show(v).c_str(), lo, hi);
	if (std::isnan(exp)) return;
	// wrapping a hue may round, everything else is stored as it is
	bool hue = is_hsx(v.t) && i == 0;
	if (hue ? !(fabs(v.c[i] - exp) <= 4e-5 || (exp < 4e-5 && v.c[i] == 359) || (v.c[i] < 4e-5 && exp == 359)) : v.c[i] != (float)exp) fail("%s: component %d of %s should be %.9g", what, i, show(v).c_str(), exp);
}
static void check_alpha(Color* c, double exp, const char* what) {
	double top = is_true((int)c->get_color_type()) ? 255 : 1, a = c->alpha();
	if (!(a >= 0 && a <= top)) fail("%s: alpha %.9g is outside [0,%g]", what, a, top);
	if (!std::isnan(exp) && !(fabs(a - exp) <= (top == 1 ? 0 : 3e-7 * exp + 1e-42))) fail("%s: alpha is %.9g, expected %.9g", what, a, exp);
}
static Color* make_raw(int t, const float* v, float alpha, RgbDef* d) {
	std::vector<float> c(v, v + 4);
	switch (t) {
	case RGBT: return new cs::rgb_truecolor(v[0], v[1], v[2], alpha, d);
	case GT: return new cs::grey_truecolor(v[0], alpha, d);
	default: return make(t, c, alpha, d);
	}
}
static void c01(Src& s) {
	int t = (int)s.strat(NT);
	static RgbDef* d = preset_def(0);
	float v[4], av = g_wild(s);
	bool wild = false, in = false;
	auto see = [&](float x, double lo, double hi) { if (x >= lo && x <= hi) in = true; else wild = true; };
	for (auto& x : v) x = g_wild(s);
	double top = is_true(t) ? 255 : 1;
	Color* c; bool one = false;
	if ((t == RGBT || t == RGBD) && s.chance(1, 5)) { // grey constructors
		one = true; c = t == RGBT ? (Color*)new cs::rgb_truecolor(v[0], av, d) : (Color*)new cs::rgb_deepcolor(v[0], av, d);
		v[1] = v[2] = v[0];
	}
	else c = make_raw(t, v, av, d);
	s.note("%s%s(%g,%g,%g,%g; alpha %g)", TNAME[t], one ? " grey" : "", v[0], v[1], v[2], v[3], av);
	if ((int)c->get_color_type() != t) fail("constructor of %s: type is %d", TNAME[t], (int)c->get_color_type());
	if (c->get_rgb_color_space() != d) fail("constructor of %s: RGB space not kept", TNAME[t]);
	Val m = snap(c);
	if ((int)m.c.size() != NCOMP[t]) fail("%s has %zu components", TNAME[t], m.c.size());
	for (int i = 0; i < NCOMP[t]; ++i) { see(v[i], lo_of(t, i), hi_of(t, i)); check_comp(m, i, stored(t, i, v[i]), lo_of(t, i), hi_of(t, i), "constructor"); }
	auto exp_alpha = [&](float a) { return std::isnan(a) ? NAN : lim(a, 0, top); };
	see(av, 0, top);
	check_alpha(c, exp_alpha(av), "constructor");
	double alpha_now = c->alpha();
	// a history of writes against a model of the state
	int n = s.range(0, 12);
	for (int k = 0; k < n; ++k) {
		int op = (int)s.draw(6), i = (int)s.draw((uint32_t)NCOMP[t]);
		float x = g_wild(s);
		Val before = snap(c); double exp = 0, lo = lo_of(t, i), hi = hi_of(t, i); std::string what; bool changed = true;
		switch (op) {
		case 0: case 1: named_set(c, i, x); exp = stored(t, i, x); what = fmt("set component %d by name to %g", i, x); break;
		case 2: { lo = c->get_component_min(); hi = c->get_component_max();
			c->set_component(x, i); exp = std::isnan(x) ? NAN : lim(x, lo, hi); what = fmt("set_component(%g, %d)", x, i); break; }
		case 3: { double l = lo_of(t, i), h = hi_of(t, i); float p = (float)(l + g_unit(s) * (h - l)), q = (float)(l + g_unit(s) * (h - l)); if (p > q) std::swap(p, q);
			p = (float)lim(p, l, h); q = (float)lim(q, l, h);
			c->set_component(x, i, q, p); lo = p; hi = q; exp = std::isnan(x) ? NAN : lim(x, p, q); what = fmt("set_component(%g, %d, max %g, min %g)", x, i, q, p); break; }
		case 4: { c->alpha(x); see(x, 0, top); check_alpha(c, exp_alpha(x), fmt("alpha(%g)", x).c_str()); alpha_now = c->alpha(); changed = false; what = fmt("alpha(%g)", x); break; }
		default: {
			static const int bad[] = {-1, INT_MIN, INT_MAX, -2, 100, -1000000};
			int b = s.chance(1, 2) ? bad[s.draw(6)] : NCOMP[t] + (int)s.draw(3);
			what = fmt("index %d", b); changed = false;
			bool thrown;
			switch (s.draw(3)) {
			case 0: thrown = throws([&]() { c->set_component(x, b); }); break;
			case 1: thrown = throws([&]() { c->set_component(x, b, 1.f, 0.f); }); break;
			default: thrown = throws([&]() { volatile float y = c->get_component(b); (void)y; }); break;
			}
			if (!thrown) fail("%s: index %d outside the %d components was accepted", TNAME[t], b, NCOMP[t]);
			break; }
		}
		s.note("%s", what.c_str());
		Val after = snap(c);
		if (after.c.size() != before.c.size() || after.t != before.t || after.d != before.d) fail("%s: %s changed the type, space or component count", TNAME[t], what.c_str());
		for (int j = 0; j < NCOMP[t]; ++j) {
			if (changed && j == i) {
				bool by_index = op == 2 || op == 3;
				if (by_index) { if (!(after.c[j] >= lo && after.c[j] <= hi)) fail("%s: %s gives %.9g", TNAME[t], what.c_str(), after.c[j]); if (!std::isnan(exp) && after.c[j] != (float)exp) fail("%s: %s gives %.9g, expected %.9g", TNAME[t], what.c_str(), after.c[j], exp); }
				else { see(x, lo, hi); check_comp(after, j, exp, lo, hi, what.c_str()); }
			}
			else if (memcmp(&after.c[j], &before.c[j], 4)) fail("%s: %s changed component %d from %.9g to %.9g", TNAME[t], what.c_str(), j, before.c[j], after.c[j]);
		}
		if (op != 4 && c->alpha() != (float)alpha_now) fail("%s: %s changed alpha", TNAME[t], what.c_str());
		std::vector<float> nm = named_get(c);
		for (int j = 0; j < NCOMP[t]; ++j) {
			if (memcmp(&nm[j], &after.c[j], 4)) fail("%s: accessor of component %d reports %.9g, the component vector %.9g", TNAME[t], j, nm[j], after.c[j]);
			float g = c->get_component(j); if (memcmp(&g, &after.c[j], 4)) fail("%s: get_component(%d) reports %.9g, the component vector %.9g", TNAME[t], j, g, after.c[j]);
		}
	}
	s.nt = wild && in && n > 0;
	s.tag(TNAME[t]);
}
PROPERTY("C01", c01, 400000, 6000000, "one colour of each type in turn, built from ordinary, huge, tiny, negative, infinite and NaN values, then up to 12 writes through named setters, indexed writes (with and without limits), alpha and bad indices, checked against a model of the state after every step; non-trivial: at least one write, one value inside and one outside its range");

static void same(const Val& a, const Val& b, const char* what) {
	if (a.t != b.t || a.d != b.d || a.c.size() != b.c.size()) fail("%s: %s became %s (space %s)", what, show(b).c_str(), show(a).c_str(), a.d == b.d ? "kept" : "changed");
	for (size_t i = 0; i < a.c.size(); ++i) if (a.c[i] != b.c[i]) fail("%s: %s became %s", what, show(b).c_str(), show(a).c_str());
	if (!(fabs(a.a - b.a) <= 3e-7)) fail("%s: alpha of %s became %.9g", what, show(b).c_str(), a.a);
}
static void mutate(Src& s, Color* c, RgbDef* other) {
	int t = (int)c->get_color_type();
	for (int i = 0; i < NCOMP[t]; ++i) { float v = c->get_component(i), m = (float)((lo_of(t, i) + hi_of(t, i)) / 2); named_set(c, i, v > m ? (float)lo_of(t, i) : (float)hi_of(t, i)); }
	float top = is_true(t) ? 255.f : 1.f; c->alpha(c->alpha() > top / 2 ? 0.f : top);
	c->set_rgb_color_space(other);
	(void)s;
}
static void c02(Src& s) {
	int t = (int)s.strat(NT), mode = (int)s.strat(7);
	static RgbDef* d1 = preset_def(0); static RgbDef* d2 = preset_def(1); static RgbDef* d3 = preset_def(2);
	Val v = g_full(s, t, s.flip() ? d1 : d2); if (s.chance(1, 2) && v.a == 1.f) v.a = 0.3f;
	Color* c = make(v); v = snap(c);
	s.tag(fmt("%s mode %d", TNAME[t], mode));
	switch (mode) {
	case 0: case 1: {
		Color* k = mode == 0 ? copy_typed(c) : copy_from_base(t, *c);
		const char* what = mode == 0 ? "copy" : "copy through the base";
		s.note("%s of %s", what, show(v).c_str());
		same(snap(k), v, what); same(snap(c), v, "source of a copy");
		if (k->get_component_max() != c->get_component_max() || k->get_component_min() != c->get_component_min()) fail("%s of %s: component range changed", what, TNAME[t]);
		mutate(s, k, d3); same(snap(c), v, "source after changing its copy");
		Color* k2 = mode == 0 ? copy_typed(c) : copy_from_base(t, *c);
		mutate(s, c, d3); same(snap(k2), v, "copy after changing its source");
		s.nt = v.a != 1.f; break; }
	case 2: {
		Val w = g_full(s, t, d3); Color* dst = make(w);
		bool base = s.chance(1, 3);
		s.note("assign%s %s to %s", base ? " through the base" : "", show(v).c_str(), show(w).c_str());
		if (base) { Color& r = *dst; r = *c; } else assign_typed(dst, c);
		same(snap(dst), v, "assignment"); same(snap(c), v, "source of an assignment");
		mutate(s, dst, d3); same(snap(c), v, "source after changing the assigned colour");
		assign_typed(dst, c); mutate(s, c, d3); same(snap(dst), v, "assigned colour after changing its source");
		s.nt = true; break; }
	case 3: {
		s.note("self-assign %s", show(v).c_str());
		assign_typed(c, c); same(snap(c), v, "self-assignment");
		// chain of copies and assignments ends with the same value
		Color* a = copy_typed(c); Color* b = copy_from_base(t, *a); Color* e = make(g_full(s, t, d3)); assign_typed(e, b);
		same(snap(e), v, "copy of copy of copy"); s.nt = v.a != 1.f; break; }
	case 4: {
		int u = (int)s.draw(NT); if (u == t) u = (u + 1) % NT;
		s.note("construct %s from %s", TNAME[u], show(v).c_str());
		if (!throws([&]() { copy_from_base(u, *c); })) fail("a %s was built from a %s", TNAME[u], TNAME[t]);
		same(snap(c), v, "source of a rejected copy"); s.nt = true; break; }
	case 5: {
		Color* x[4] = {c, nullptr, nullptr, nullptr};
		for (int k = 1; k < 4; ++k) {
			Val w = snap(x[s.draw((uint32_t)k)]);
			switch (s.draw(5)) {
			case 0: break;
			case 1: w.a = g_alpha(s); w.d = d3; break;
			case 2: { int i = (int)s.draw((uint32_t)NCOMP[w.t]); w.c[i] = s.flip() ? nextafterf(w.c[i], w.c[i] > 0 ? -1e9f : 1e9f) : (float)hi_of(w.t, i) - (w.c[i] - (float)lo_of(w.t, i)); break; }
			case 3: { int u = (int)s.draw(NT); if (NCOMP[u] == NCOMP[w.t]) w.t = u; break; }
			default: w = g_full(s, w.t, d1);
			}
			x[k] = make(w);
		}
		for (auto* p : x) for (auto* q : x) {
			Val a = snap(p), b = snap(q);
			bool exp = a.t == b.t && a.c == b.c;
			const Color &P = *p, &Q = *q;
			if ((P == Q) != exp) fail("%s == %s is %d", show(a).c_str(), show(b).c_str(), !exp);
			if ((P != Q) == exp) fail("%s != %s is %d", show(a).c_str(), show(b).c_str(), exp);
			if (p != q && exp) s.nt = true;
		}
		s.note("compare %s, %s, %s, %s", show(x[0]).c_str(), show(x[1]).c_str(), show(x[2]).c_str(), show(x[3]).c_str()); break; }
	default: {
		if (s.chance(1, 3)) { // alpha multiplication and division
			float a = v.a; bool divide = s.flip();
			s.note("alpha %s of %s", divide ? "division" : "multiplication", show(v).c_str());
			if (divide) c->alpha_divide(); else c->alpha_multiply();
			Val r = snap(c);
			for (int i = 0; i < NCOMP[t]; ++i) {
				if (divide && a > 0 && a < 3e-39f) continue; // 1 / alpha is beyond float
				double exp = divide ? (a == 0 ? v.c[i] : (double)v.c[i] / a) : (double)v.c[i] * a;
				if (r.c[i] != (float)exp && !(fabs(r.c[i] - exp) <= 1e-6 * fabs(exp) + 1e-30)) fail("alpha %s of %s: component %d is %.9g, expected %.9g", divide ? "division" : "multiplication", show(v).c_str(), i, r.c[i], exp);
			}
			if (r.a != v.a || r.t != v.t || r.d != v.d) fail("alpha %s of %s changed alpha, type or space", divide ? "division" : "multiplication", show(v).c_str());
			s.nt = a > 0 && a < 1; break;
		}
		int u = s.chance(1, 4) ? (int)s.draw(NT) : t;
		Val w = g_full(s, u, d2); Color* k = u == t && s.chance(1, 6) ? c : make(w); w = snap(k);
		s.note("%s + %s", show(v).c_str(), show(w).c_str());
		if (u != t) {
			if (!throws([&]() { *c + *k; })) fail("%s + %s was accepted", TNAME[t], TNAME[u]);
			same(snap(c), v, "left operand of a rejected sum"); same(snap(k), w, "right operand of a rejected sum"); s.nt = true; break;
		}
		Color r = *c + *k; Color q = *k + *c;
		Val rv; rv.c = r.get_component_vector();
		if ((int)r.get_color_type() != t || (int)rv.c.size() != NCOMP[t]) fail("%s + %s has type %d with %zu components", TNAME[t], TNAME[t], (int)r.get_color_type(), rv.c.size());
		if (r.get_rgb_color_space() != v.d) fail("%s + %s: not the RGB space of the first colour", TNAME[t], TNAME[t]);
		if (!(fabs(r.Color::alpha() - v.a) <= 3e-7)) fail("%s + %s: alpha is %.9g, the first colour has %.9g", TNAME[t], TNAME[t], r.Color::alpha(), v.a);
		if (r.get_component_max() != c->get_component_max() || r.get_component_min() != c->get_component_min()) fail("%s + %s: component range changed", TNAME[t], TNAME[t]);
		bool limited = false;
		for (int i = 0; i < NCOMP[t]; ++i) {
			double sum = (double)v.c[i] + w.c[i], exp = lim(sum, c->get_component_min(), c->get_component_max());
			if (exp != sum) limited = true;
			if (!(fabs(rv.c[i] - exp) <= 1e-6 * fabs(exp) + 1e-30)) fail("%s + %s: component %d is %.9g, expected %.9g", show(v).c_str(), show(w).c_str(), i, rv.c[i], exp);
		}
		if (r.get_component_vector() != q.get_component_vector()) fail("%s + %s does not commute", show(v).c_str(), show(w).c_str());
		same(snap(c), v, "left operand of a sum"); same(snap(k), w, "right operand of a sum");
		s.nt = limited || v.a != 1.f;
	} }
}
PROPERTY("C02", c02, 400000, 6000000, "each type times each operation (copy, copy through the base, assignment, self-assignment and chains, cross-type construction, comparisons among four related colours, plus and alpha scaling) on colours anywhere in range with random alpha and space; non-trivial: alpha differs from 1, a sum is limited, distinct objects compare equal, or an error is due");

struct Named { HexcodeColors code; uint32_t published; const char* name; };
static const Named NAMED[] = {
#include "names.inc"
};
static const uint32_t N_NAMED = sizeof NAMED / sizeof *NAMED;

static void check_hex(const Val& v, float alpha255, uint32_t argb, const char* what) {
	for (int i = 0; i < 3; ++i) { float e = (float)((argb >> (16 - 8 * i)) & 255); if (v.c[i] != e) fail("%s: %s, expected channel %d to be %g", what, show(v).c_str(), i, e); }
	float a = (float)(argb >> 24);
	if (!(fabsf(alpha255 - a) <= 1e-4f)) fail("%s: alpha is %.9g, expected %g", what, alpha255, a);
}
static void c03(Src& s) {
	static RgbDef* d = preset_def(0);
	int mode = (int)s.strat(4);
	if (mode <= 1) {
		std::string str; int n; bool valid = mode == 0;
		auto digit = [&]() { static const char dg[] = "0123456789abcdefABCDEF"; return dg[s.draw(22)]; };
		n = valid ? (s.flip() ? 8 : 6) : (int)s.draw(13);
		if (!valid && s.chance(1, 40)) n = 20000 + (int)s.draw(500000);
		if (n < 20) for (int i = 0; i < n; ++i) str += digit(); else str.assign((size_t)n, digit());
		bool hash = s.flip();
		if (hash) str = "#" + str;
		if (!valid) {
			std::string bad = s.chance(1, 8) ? std::string("##") : std::string(1, (char)s.draw(256));
			static const char typical[] = "gGxX -+#zZ.\n\t\0/:@`";
			if (s.flip()) bad = std::string(1, typical[s.draw(sizeof typical - 1)]);
			switch (s.draw(4)) {
			case 0: break;
			case 1: if (!str.empty()) str[s.draw((uint32_t)str.size())] = bad[0]; break;
			case 2: str.insert(s.draw((uint32_t)str.size() + 1), bad); break;
			default: if (!str.empty()) str = s.flip() ? "0x" + str : str + bad; break;
			}
			std::string h = str; if (!h.empty() && h[0] == '#') h = h.substr(1);
			bool ok = h.size() == 6 || h.size() == 8;
			for (char c : h) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) ok = false;
			valid = ok;
		}
		std::string shown; for (char c : str.substr(0, 40)) shown += c >= 32 && c < 127 ? std::string(1, c) : fmt("\\x%02x", (unsigned char)c);
		if (str.size() > 40) shown += fmt("... (%zu characters)", str.size());
		s.note("hex string \"%s\" is %s", shown.c_str(), valid ? "valid" : "invalid"); s.tag(valid ? "valid string" : "invalid string");
		cs::rgb_truecolor* c = nullptr;
		bool thrown = throws([&]() { c = new cs::rgb_truecolor(str, d); });
		if (thrown == valid) fail("hex string \"%s\" was %s", shown.c_str(), thrown ? "rejected" : "accepted");
		s.nt = true;
		if (!valid) return;
		std::string h = str[0] == '#' ? str.substr(1) : str; uint32_t argb = 0;
		for (char ch : h) argb = argb * 16 + (uint32_t)(ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10);
		if (h.size() == 6) argb |= 0xff000000u;
		if ((int)c->get_color_type() != RGBT || c->get_rgb_color_space() != d) fail("hex string \"%s\": type or space wrong", shown.c_str());
		check_hex(snap(c), c->alpha(), argb, ("hex string " + shown).c_str());
		cs::rgb_truecolor i((int)argb, d);
		check_hex(snap(&i), i.alpha(), argb, "integer code");
		if (!(*c == i)) fail("string and integer code of %08x differ", argb);
	}
	else if (mode == 2) {
		static const uint32_t nice[] = {0, 0xffffffffu, 0xff000000u, 0x00ffffffu, 0x80808080u, 0x7fffffffu, 0x80000000u, 0x01020304u, 0x10203040u};
		uint32_t argb = s.chance(1, 4) ? nice[s.draw(9)] : (s.draw(65536) << 16) | s.draw(65536);
		s.note("integer code %08x", argb); s.tag("integer");
		cs::rgb_truecolor c((int)argb, d);
		check_hex(snap(&c), c.alpha(), argb, fmt("integer code %08x", argb).c_str());
		std::string h = fmt("%08X", argb); if (s.flip()) for (auto& ch : h) ch = (char)tolower(ch); if (s.flip()) h = "#" + h;
		cs::rgb_truecolor k(h, d);
		if (!(k == c) || k.alpha() != c.alpha()) fail("integer code %08x and string %s differ", argb, h.c_str());
		if (c.get_rgb_color_space() != d) fail("integer code: RGB space not kept");
		s.nt = argb != 0;
	}
	else {
		const Named& n = NAMED[s.draw(N_NAMED)];
		DefGen g = g_def(s); RgbDef* def = g.d; Space sp = space_of(def);
		s.note("named colour %s in %s", n.name, g.name.c_str()); s.tag("named");
		if ((uint32_t)n.code != n.published) fail("%s is %08x, published %08x", n.name, (uint32_t)n.code, n.published);
		predefined_color p(n.code, def);
		check_hex(snap(p.get_rgb_true()), p.get_rgb_true()->alpha(), n.published, n.name);
		DV v = dv(RGBT, (n.published >> 16) & 255, (n.published >> 8) & 255, n.published & 255, (n.published >> 24) / 255.0, def);
		struct { Color* c; int t; double eps; } all[] = {{p.get_rgb_true(), RGBT, 1e-6}, {p.get_rgb_deep(), RGBD, 1e-6}, {p.get_grey_true(), GT, 1e-6}, {p.get_grey_deep(), GD, 1e-6}, {p.get_cmyk(), CMYKt, 4e-6}, {p.get_hsv(), HSVt, 4e-6}, {p.get_hsl(), HSLt, 4e-6}, {p.get_xyz(), XYZt, 2e-5}, {p.get_xyy(), XYYt, 5e-4}, {p.get_lab(), LABt, 2e-2}};
		for (auto& x : all) {
			if (!x.c) fail("%s as %s: no colour", n.name, TNAME[x.t]);
			if (x.c->get_rgb_color_space() != def) fail("%s as %s: not the given RGB space", n.name, TNAME[x.t]);
			expect_near(snap(x.c), ref_convert(sp, v, x.t), x.eps, fmt("%s as %s in %s", n.name, TNAME[x.t], g.name.c_str()).c_str());
		}
		s.nt = true;
	}
}
PROPERTY("C03", c03, 200000, 3000000, "hex strings built from digits of both cases with and without '#', and the same damaged (other lengths up to half a million characters, foreign characters, control and NUL bytes, second '#', 0x prefix); integer codes; every named colour against the published table in every type it offers, in random RGB spaces; non-trivial: every case except the integer 0");
