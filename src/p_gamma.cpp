// C04 gamma curves, C05 white points and RGB spaces, C24 parts, curves, white points and spaces as values
#include "gen.h"
#include <cmath>
#include <limits>

// A part of a curve as the model sees it: f(x) = a*x + b, border, and whether it has a function
struct Part { float a, b, border; bool fn; cs::gamma_part* p; };
static float eval(const Part& p, float x) { return p.a * x + p.b; }
static Part g_part(Src& s, int k) {
	Part p; p.a = 1.f + k; p.b = 0.125f * (float)s.draw(8); // a distinguishes the parts
	switch (s.draw(4)) {
	case 0: p.border = (float)s.draw(9) / 8.f; break;
	case 1: p.border = g_unit(s); break;
	case 2: { static const float e[] = {1.f, 0.f, -1.f, 2.f, 1e30f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), -1e-20f}; p.border = e[s.draw(8)]; break; }
	default: p.border = (float)s.range(-20, 40) / 16.f; break;
	}
	p.fn = !s.chance(1, 8);
	float a = p.a, b = p.b;
	p.p = p.fn ? new cs::gamma_part([a, b](float x) { return a * x + b; }, p.border) : new cs::gamma_part(std::function<float(float)>(), p.border);
	return p;
}
static bool matches(const std::vector<Part>& ps, float x, float act, std::string& exp) {
	float best = NAN; bool any = false;
	for (auto& p : ps) if (p.fn && x <= p.border && (!any || p.border < best)) { best = p.border; any = true; }
	if (!any) { exp = fmt("%.9g unchanged", x); return act == x || (std::isnan(x) && std::isnan(act)); }
	exp.clear();
	for (auto& p : ps) if (p.fn && p.border == best) { float e = eval(p, x); exp += fmt(" %.9g (border %g)", e, p.border); if (fabsf(act - e) <= 1e-5f * (fabsf(e) + 1e-30f) || (std::isinf(e) && act == e)) return true; }
	return false;
}
static std::string desc(const std::vector<Part>& v) { std::string r; for (auto& p : v) r += fmt("%s%gx+%g up to %.9g", r.empty() ? "" : ", ", p.a, p.b, p.border) + (p.fn ? "" : " (no function)"); return r; }
static std::vector<cs::gamma_part*> raw(const std::vector<Part>& v) { std::vector<cs::gamma_part*> r; for (auto& p : v) r.push_back(p.p); return r; }

static cs::gamma* preset(int i, Curve& c, std::string& name) {
	cs::gamma_presets p;
	switch (i) {
	case 0: c = curve_srgb(); name = "sRGB"; return p.sRGB();
	case 1: c = curve_power(1.8); name = "1.8"; return p.gamma1_8();
	case 2: c = curve_power(2.2); name = "2.2"; return p.gamma2_2();
	case 3: c = curve_power(2.6); name = "2.6"; return p.gamma2_6();
	case 4: c = curve_power(2.8); name = "2.8"; return p.gamma2_8();
	case 5: c = curve_power(2.19921875); name = "Adobe"; return p.gammaAdobe();
	case 6: c = curve_romm(); name = "ROMM"; return p.gammaRomm();
	default: c = curve_uhdtv(); name = "UHDTV"; return p.gammaUHDTV();
	}
}
// published value of a curve around x, both sides of the border when x sits on it
static void hull(const std::function<double(double)>& f, double x, double d, double& lo, double& hi) {
	lo = 1e9; hi = -1e9;
	for (double y : {x - d, x, x + d}) { double v = f(y < 0 ? 0 : y); lo = std::min(lo, v); hi = std::max(hi, v); }
}
static void check_curve(const char* what, const std::function<double(double)>& f, float x, float act) {
	double lo, hi; hull(f, x, 1e-7 * (1 + x), lo, hi);
	double tol = 2e-6 * (fabs(hi) + 1e-3);
	if (!(act >= lo - tol && act <= hi + tol)) fail("%s(%.9g) is %.9g, published value %.9g", what, x, act, f(x));
}
static void c04(Src& s) {
	int mode = (int)s.strat(4);
	if (mode <= 1) { // selection of parts under any history of adding, setting, copying
		std::vector<Part> g, ig; int k = 0;
		int n = s.chance(1, 6) ? s.range(10, 24) : s.range(0, 6), m = s.range(0, 6);
		std::vector<Part> g0, ig0;
		for (int i = 0; i < n; ++i) g0.push_back(g_part(s, k++));
		for (int i = 0; i < m; ++i) ig0.push_back(g_part(s, k++));
		cs::gamma* cur;
		int how = (int)s.draw(3); bool multi = n >= 2;
		if (how == 0) { cur = new cs::gamma(raw(g0), raw(ig0)); g = g0; ig = ig0; }
		else if (how == 1) { cur = new cs::gamma(); for (auto& p : g0) { cur->add_gamma_curve_part(p.p); g.push_back(p); } for (auto& p : ig0) { cur->add_inverse_gamma_curve_part(p.p); ig.push_back(p); } }
		else { cur = new cs::gamma(); cur->set_gamma_curve_parts(raw(g0)); cur->set_inverse_gamma_curve_parts(raw(ig0)); g = g0; ig = ig0; }
		s.note("curve [%s] inverse [%s]", desc(g).c_str(), desc(ig).c_str());
		struct State { cs::gamma* c; std::vector<Part> g, ig; };
		std::vector<State> live{{cur, g, ig}};
		int steps = s.range(0, 6);
		auto probe = [&](State& st, const char* what) {
			std::vector<float> xs{g_unit(s), 1.f, 0.f};
			if (s.flip()) xs.push_back(g_wild(s));
			for (auto* v : {&st.g, &st.ig}) if (!v->empty()) { float b = (*v)[s.draw((uint32_t)v->size())].border; xs.push_back(b); xs.push_back(nextafterf(b, 1e9f)); xs.push_back(nextafterf(b, -1e9f)); }
			for (float x : xs) {
				std::string e;
				float r = st.c->gamma_correction(x); if (!matches(st.g, x, r, e)) fail("%s: correction of %.9g by [%s] is %.9g, expected %s", what, x, desc(st.g).c_str(), r, e.c_str());
				r = st.c->inverse_gamma_correction(x); if (!matches(st.ig, x, r, e)) fail("%s: inverse correction of %.9g by [%s] is %.9g, expected %s", what, x, desc(st.ig).c_str(), r, e.c_str());
			}
			if (st.c->get_gamma_curve_parts().size() != st.g.size() || st.c->get_inverse_gamma_curve_parts().size() != st.ig.size()) fail("%s: %zu and %zu parts instead of %zu and %zu", what, st.c->get_gamma_curve_parts().size(), st.c->get_inverse_gamma_curve_parts().size(), st.g.size(), st.ig.size());
			auto sorted = st.c->get_gamma_curve_parts(); for (size_t i = 1; i < sorted.size(); ++i) if (sorted[i]->get_upper_border() < sorted[i - 1]->get_upper_border()) fail("%s: parts are not in ascending order", what);
		};
		probe(live[0], "fresh curve");
		for (int i = 0; i < steps; ++i) {
			size_t w = s.draw((uint32_t)live.size()); const char* what = "";
			switch (s.draw(6)) {
			case 0: { Part p = g_part(s, k++); live[w].c->add_gamma_curve_part(p.p); live[w].g.push_back(p); what = "add"; break; }
			case 1: { Part p = g_part(s, k++); live[w].c->add_inverse_gamma_curve_part(p.p); live[w].ig.push_back(p); what = "add inverse"; break; }
			case 2: { live.push_back({new cs::gamma(*live[w].c), live[w].g, live[w].ig}); what = "copy"; // parts with equal borders may be reordered by the sort of the copy
				auto distinct = [](const std::vector<Part>& v) { for (size_t a = 0; a < v.size(); ++a) for (size_t b = 0; b < a; ++b) if (v[a].border == v[b].border) return false; return true; };
				if (distinct(live[w].g) && distinct(live[w].ig)) if (!(*live.back().c == *live[w].c) || *live.back().c != *live[w].c) fail("a copied curve is not equal to its original"); break; }
			case 3: { size_t o = s.draw((uint32_t)live.size()); *live[o].c = *live[w].c; live[o].g = live[w].g; live[o].ig = live[w].ig; what = "assign"; break; }
			case 4: { std::vector<Part> v; int q = s.range(0, 4); for (int j = 0; j < q; ++j) v.push_back(g_part(s, k++)); live[w].c->set_gamma_curve_parts(raw(v)); live[w].g = v; what = "set parts"; break; }
			default: { std::vector<Part> v; int q = s.range(0, 4); for (int j = 0; j < q; ++j) v.push_back(g_part(s, k++)); live[w].c->set_inverse_gamma_curve_parts(raw(v)); live[w].ig = v; what = "set inverse parts"; break; }
			}
			s.note("%s #%zu", what, w);
			for (auto& st : live) { probe(st, what); if (st.g.size() >= 2) multi = true; }
		}
		s.nt = multi; s.tag("parts");
	}
	else if (mode == 2) { // presets against the published formulas
		Curve c; std::string name; cs::gamma* g = preset((int)s.strat(8), c, name);
		float x = s.chance(1, 3) ? (float)((s.flip() && c.enc_border > 0 ? c.enc_border : c.dec_border > 0 ? c.dec_border : 0.5) * (1 + s.range(-30, 30) * 1e-3)) : g_unit(s);
		float y = g_unit(s); if (s.flip()) y = x + (y - x) * 1e-3f; if (x > y) std::swap(x, y);
		s.note("preset %s at %.9g and %.9g", name.c_str(), x, y);
		for (int inv = 0; inv < 2; ++inv) {
			auto f = [&](float v) { return inv ? g->inverse_gamma_correction(v) : g->gamma_correction(v); };
			std::string w = std::string(inv ? "inverse " : "") + name;
			const auto& ref = inv ? c.dec : c.enc;
			float fx = f(x), fy = f(y);
			check_curve(w.c_str(), ref, x, fx); check_curve(w.c_str(), ref, y, fy);
			if (!(fx >= 0 && fx <= 1.0000005f)) fail("%s(%.9g) = %.9g leaves [0,1]", w.c_str(), x, fx);
			// the published constants of ROMM and UHDTV leave a small step at the switch
			if (fx > fy + 1e-4f) fail("%s is not monotone: f(%.9g)=%.9g > f(%.9g)=%.9g", w.c_str(), x, fx, y, fy);
			float back = inv ? g->gamma_correction(fx) : g->inverse_gamma_correction(fx);
			// the round trip loses what the slope of the curve at x loses: compare through the reference hull
			const auto& rb = inv ? c.enc : c.dec; double lo, hi; hull(rb, fx, 3e-7 * (1 + fabs(fx)), lo, hi);
			double jump = name == "UHDTV" ? 5e-4 : name == "ROMM" || name == "sRGB" ? 2e-4 : 0;
			if (!(fabs(back - x) <= 1e-5 + jump + (hi - lo))) fail("%s: correcting %.9g and back gives %.9g", w.c_str(), x, back);
			if (f(0.f) != 0.f || !(fabsf(f(1.f) - 1.f) <= 1e-6f)) fail("%s: f(0)=%.9g, f(1)=%.9g", w.c_str(), f(0.f), f(1.f));
		}
		s.nt = x > 0 && x < 1; s.tag("preset " + name);
	}
	else { // component by component
		DefGen g = g_def(s); Space sp = space_of(g.d);
		static const int types[] = {RGBD, GD, CMYKt};
		Val v = g_full(s, types[s.draw(3)], g.d); Color* c = make(v); v = snap(c);
		bool inv = s.flip();
		s.note("%s correction of %s in %s", inv ? "inverse" : "gamma", show(v).c_str(), g.name.c_str());
		if (inv) c->do_inverse_gamma_correction(); else c->do_gamma_correction();
		Val r = snap(c);
		for (int i = 0; i < NCOMP[v.t]; ++i) check_curve(fmt("%s correction, component %d of %s in %s", inv ? "inverse" : "gamma", i, show(v).c_str(), g.name.c_str()).c_str(), [&](double x) { return clamp1((inv ? sp.g.dec : sp.g.enc)(x)); }, v.c[i], r.c[i]);
		if (r.a != v.a || r.d != v.d || r.t != v.t) fail("gamma correction changed alpha, space or type of %s", show(v).c_str());
		s.nt = true; s.tag("colour");
	}
}
PROPERTY("C04", c04, 160000, 3000000, "half: histories of building, extending, replacing, copying and assigning curves of up to 24 parts (equal, negative, infinite borders, parts without function) probed at, above and below every border against a model; a quarter: every predefined curve against its published formula, range, monotony, round trip; a quarter: correction of whole colours in random RGB spaces; non-trivial: two or more parts, 0 < x < 1, or a colour");

struct WP { const char* name; cs::white_point* (cs::white_point_presets::*make)(); double t[3], c[2]; };
#define W(n, X, Y, Z, x, y) {#n, &cs::white_point_presets::n, {X, Y, Z}, {x, y}},
static const WP WHITES[] = {
#include "whites.inc"
};
#undef W
static const uint32_t NW = sizeof WHITES / sizeof *WHITES;
struct SP { double p[6]; const char* white; };
static const SP SPACES[] = {
	{{.64, .33, .3, .6, .15, .06}, "D65_2Degree"}, {{.64, .33, .21, .71, .15, .06}, "D65_2Degree"}, {{.64, .33, .29, .6, .15, .06}, "D65_2Degree"}, {{.63, .34, .31, .595, .155, .07}, "D65_2Degree"},
	{{.67, .33, .21, .71, .14, .08}, "C_2Degree"}, {{.625, .34, .28, .595, .155, .07}, "D65_2Degree"}, {{.68, .32, .265, .69, .15, .06}, "D65_2Degree"}, {{.708, .292, .17, .797, .131, .046}, "D65_2Degree"},
	{{.735, .265, .115, .826, .157, .018}, "D50_2Degree"}, {{.7347, .2653, .1596, .8404, .0366, .0001}, "D50_2Degree"}, {{.7347, .2653, .215, .775, .13, .035}, "D50_2Degree"}, {{.6888, .3112, .1986, .7551, .1265, .0352}, "D50_2Degree"},
	{{.64, .33, .28, .65, .15, .06}, "D65_2Degree"}, {{.63, .34, .295, .605, .15, .075}, "D50_2Degree"}, {{.696, .3, .215, .765, .13, .035}, "D50_2Degree"}, {{.695, .305, .26, .7, .11, .005}, "D50_2Degree"},
	{{.7347, .2653, .1596, .8404, .0366, .0001}, "D50_2Degree"}, {{.63, .34, .31, .595, .155, .07}, "D65_2Degree"}, {{.7347, .2653, .2738, .7174, .1666, .0089}, "E_2Degree"}, {{1, 0, 0, 1, 0, 0}, "E_2Degree"}};
static const WP& white_named(const std::string& n) { for (auto& w : WHITES) if (n == w.name) return w; fail("no white point %s", n.c_str()); }

static void near_d(double a, double e, double tol, const char* what) { if (!(fabs(a - e) <= tol)) fail("%s is %.9g, expected %.9g", what, a, e); }
static void same_light(cs::white_point* w, double tol, const char* what) {
	double X = w->get_tristimulus_x(), Y = w->get_tristimulus_y(), Z = w->get_tristimulus_z(), n = X + Y + Z;
	near_d(w->get_chromaticity_x(), X / n, tol, fmt("%s: chromaticity x", what).c_str());
	near_d(w->get_chromaticity_y(), Y / n, tol, fmt("%s: chromaticity y", what).c_str());
	near_d(w->get_chromaticity_z(), Z / n, tol, fmt("%s: chromaticity z", what).c_str());
	auto t = w->get_tristimulus(); auto c = w->get_chromaticity_coordinate();
	if (t[0] != w->get_tristimulus_x() || t[1] != w->get_tristimulus_y() || t[2] != w->get_tristimulus_z() || c[0] != w->get_chromaticity_x() || c[1] != w->get_chromaticity_y() || c[2] != w->get_chromaticity_z()) fail("%s: getters disagree", what);
}
static void check_space(RgbDef* d, const double* p, cs::white_point* w, const char* what) {
	auto r = d->get_red_chromaticity_coordinate(), g = d->get_green_chromaticity_coordinate(), b = d->get_blue_chromaticity_coordinate();
	const double got[9] = {r[0], r[1], r[2], g[0], g[1], g[2], b[0], b[1], b[2]};
	const double one[9] = {d->get_red_x(), d->get_red_y(), d->get_red_z(), d->get_green_x(), d->get_green_y(), d->get_green_z(), d->get_blue_x(), d->get_blue_y(), d->get_blue_z()};
	for (int i = 0; i < 9; ++i) {
		double e = i % 3 < 2 ? p[i / 3 * 2 + i % 3] : 1 - p[i / 3 * 2] - p[i / 3 * 2 + 1];
		near_d(got[i], e, 2e-7, fmt("%s: primary coordinate %d", what, i).c_str());
		if (one[i] != got[i]) fail("%s: getters of primary coordinate %d disagree", what, i);
	}
	auto m = d->get_transform_matrix(), mi = d->get_inverse_transform_matrix();
	if (m.rows() != 3 || m.columns() != 3 || mi.rows() != 3 || mi.columns() != 3) fail("%s: matrix is not 3x3", what);
	double W3[3] = {w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z()};
	double prod[3][3], rowmax = 0;
	for (int i = 0; i < 3; ++i) {
		double sum = 0, mag = 0; for (int j = 0; j < 3; ++j) { sum += m(i, j); mag += fabs(m(i, j)); }
		near_d(sum, W3[i], 2e-5 * (1 + mag), fmt("%s: row %d of the matrix summed (white point)", what, i).c_str());
		for (int j = 0; j < 3; ++j) { prod[i][j] = 0; double q = 0; for (int k = 0; k < 3; ++k) { prod[i][j] += (double)m(i, k) * mi(k, j); q += fabs((double)m(i, k) * mi(k, j)); } rowmax = std::max(rowmax, q); }
	}
	for (int j = 0; j < 3; ++j) {
		double n = m(0, j) + (double)m(1, j) + m(2, j);
		for (int i = 0; i < 2; ++i) near_d(m(i, j) / n, p[j * 2 + i], 2e-5, fmt("%s: chromaticity %d of the image of primary %d", what, i, j).c_str());
	}
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) near_d(prod[i][j], i == j, 3e-5 * (1 + rowmax), fmt("%s: matrix times inverse at %d,%d", what, i, j).c_str());
}
static void c05(Src& s) {
	int mode = (int)s.strat(4);
	if (mode == 0) {
		int how = (int)s.draw(5);
		float x = 0.05f + g_unit(s) * 0.6f, y = 0.05f + g_unit(s) * 0.6f; if (x + y > 1) { x *= 0.5f; y *= 0.5f; }
		float Y = s.flip() ? 1.f : 0.01f + 100.f * g_unit(s);
		float X = x / y * Y, Z = (1 - x - y) / y * Y; if (Z < 0) Z = 0;
		s.note("white x=%g y=%g Y=%g, way %d", x, y, Y, how); s.tag(fmt("white way %d", how));
		cs::white_point* w;
		switch (how) {
		case 0: w = new cs::white_point(x, y); near_d(w->get_chromaticity_x(), x, 0, "chromaticity x"); near_d(w->get_chromaticity_y(), y, 0, "chromaticity y"); near_d(w->get_tristimulus_y(), 1, 1e-6, "tristimulus Y"); break;
		case 1: w = new cs::white_point(X, Y, Z); near_d(w->get_tristimulus_x(), X, 0, "tristimulus X"); near_d(w->get_tristimulus_y(), Y, 0, "tristimulus Y"); near_d(w->get_tristimulus_z(), Z, 0, "tristimulus Z"); break;
		case 2: w = new cs::white_point(X, Y, Z, x, y); break;
		case 3: w = new cs::white_point(std::array<float, 3>{{X, Y, Z}}, std::array<float, 2>{{x, y}}); break;
		default: {
			auto c = cs::white_point::tristimulus_to_chromaticity_coordinate({{X, Y, Z}}); auto t = cs::white_point::chromaticity_coordinate_to_tristimulus(c, Y);
			const double e[3] = {X, Y, Z}; for (int i = 0; i < 3; ++i) { near_d(t[i], e[i], 2e-5 * (1 + X + Y + Z), fmt("tristimulus %d after the way over chromaticity", i).c_str()); near_d(c[i], e[i] / ((double)X + Y + Z), 1e-6, fmt("chromaticity %d", i).c_str()); }
			auto t1 = cs::white_point::chromaticity_coordinate_to_tristimulus(c); near_d(t1[1], 1, 1e-6, "default luminance");
			w = new cs::white_point(t[0], t[1], t[2]); break; }
		}
		if (how == 2 || how == 3) { near_d(w->get_tristimulus_x(), X, 0, "tristimulus X"); near_d(w->get_tristimulus_y(), Y, 0, "tristimulus Y"); near_d(w->get_tristimulus_z(), Z, 0, "tristimulus Z"); near_d(w->get_chromaticity_x(), x, 0, "chromaticity x"); near_d(w->get_chromaticity_y(), y, 0, "chromaticity y"); }
		same_light(w, 3e-6, "white point");
		cs::white_point k(*w); same_light(&k, 3e-6, "copied white point");
		if (!(k == *w) || k != *w || k.get_tristimulus() != w->get_tristimulus() || k.get_chromaticity_coordinate() != w->get_chromaticity_coordinate()) fail("a copied white point differs");
		cs::white_point o(x * 0.9f, y); if (o == *w || !(o != *w)) fail("different white points compare equal");
		s.nt = fabsf(x - y) > 0.01f;
	}
	else if (mode == 1) {
		const WP& p = WHITES[s.draw(NW)]; cs::white_point_presets pr; cs::white_point* w = (pr.*p.make)();
		s.note("white preset %s", p.name); s.tag("white preset");
		const double got[5] = {w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z(), w->get_chromaticity_x(), w->get_chromaticity_y()};
		const double e[5] = {p.t[0], p.t[1], p.t[2], p.c[0], p.c[1]};
		for (int i = 0; i < 5; ++i) near_d(got[i], e[i], 1e-6, fmt("%s value %d", p.name, i).c_str());
		same_light(w, 1e-3, p.name); s.nt = true; // published with four digits
	}
	else if (mode == 2) {
		int i = (int)s.draw((uint32_t)N_PRESET_DEF); RgbDef* d = preset_def(i); const WP& w = white_named(SPACES[i].white);
		s.note("RGB space preset %s", PRESET_DEF_NAME[i]); s.tag("space preset");
		near_d(d->get_white_point()->get_tristimulus_x(), w.t[0], 1e-6, fmt("%s: white X", PRESET_DEF_NAME[i]).c_str());
		near_d(d->get_white_point()->get_tristimulus_z(), w.t[2], 1e-6, fmt("%s: white Z", PRESET_DEF_NAME[i]).c_str());
		near_d(d->get_white_point()->get_chromaticity_x(), w.c[0], 1e-6, fmt("%s: white x", PRESET_DEF_NAME[i]).c_str());
		near_d(d->get_white_point()->get_chromaticity_y(), w.c[1], 1e-6, fmt("%s: white y", PRESET_DEF_NAME[i]).c_str());
		check_space(d, SPACES[i].p, d->get_white_point(), PRESET_DEF_NAME[i]);
		Curve c = preset_curve(i); float x = g_unit(s);
		check_curve(fmt("%s curve", PRESET_DEF_NAME[i]).c_str(), c.enc, x, d->get_gamma_curve()->gamma_correction(x));
		check_curve(fmt("inverse %s curve", PRESET_DEF_NAME[i]).c_str(), c.dec, x, d->get_gamma_curve()->inverse_gamma_correction(x));
		s.nt = true;
	}
	else { // a space and copies of it under replacements of white and curve
		DefGen g = g_def(s); RgbDef* d = g.d;
		auto prim = [](RgbDef* x, double* p) { p[0] = x->get_red_x(); p[1] = x->get_red_y(); p[2] = x->get_green_x(); p[3] = x->get_green_y(); p[4] = x->get_blue_x(); p[5] = x->get_blue_y(); };
		double p[6]; prim(d, p);
		if (s.flip()) { // rebuilt through the other constructor
			std::array<float, 2> r{{(float)p[0], (float)p[1]}}, gr{{(float)p[2], (float)p[3]}}, b{{(float)p[4], (float)p[5]}};
			d = new RgbDef(r, gr, b, d->get_white_point(), d->get_gamma_curve());
		}
		struct St { RgbDef* d; cs::white_point* w; cs::gamma* g; };
		std::vector<St> live{{d, d->get_white_point(), d->get_gamma_curve()}};
		s.note("space %s", g.name.c_str()); s.tag("space history");
		check_space(d, p, live[0].w, g.name.c_str());
		int n = s.range(1, 6); bool white = false;
		for (int i = 0; i < n; ++i) {
			size_t k = s.draw((uint32_t)live.size()); const char* what;
			switch (s.draw(3)) {
			case 0: { cs::white_point* w = s.chance(1, 3) ? g_near_white(s, live[k].w) : g_white(s); live[k].d->set_white_point(w); live[k].w = w; what = "after replacing a white point"; white = true; if (s.chance(1, 6)) { *w = s.flip() ? *g_near_white(s, w) : *g_white(s); live[k].d->set_white_point(w); what = "after giving the same white point with other values"; } break; }
			case 1: live.push_back({new RgbDef(*live[k].d), live[k].w, live[k].g}); what = "after copying"; break;
			default: { cs::gamma_presets gp; live[k].g = s.flip() ? gp.gamma1_8() : gp.sRGB(); live[k].d->set_gamma_curve(live[k].g); what = "after replacing a curve"; break; }
			}
			s.note("%s (#%zu)", what, k);
			for (auto& st : live) {
				if (st.d->get_white_point() != st.w && !(*st.d->get_white_point() == *st.w)) fail("%s: a space has another white point than it was given", what);
				if (st.d->get_gamma_curve() != st.g && !(*st.d->get_gamma_curve() == *st.g)) fail("%s: a space has another curve than it was given", what);
				check_space(st.d, p, st.w, what);
			}
		}
		s.nt = white || live.size() > 1;
	}
}
PROPERTY("C05", c05, 80000, 2000000, "white points built by every constructor and conversion from random chromaticities and luminances; every predefined white and RGB space against its published numbers; random spaces under histories of replacing white point and curve and copying, with the matrix checked in double precision against primaries and white after every step; non-trivial: unequal chromaticities, a preset, or a history that replaces a white or copies");

static float f0(float x) { return x * 0.5f; }
static float f1(float x) { return x * x; }
static float f2(float x) { return x + 0.25f; }
static float f3(float x) { return 1.f - x; }
static float (*const FN[4])(float) = {f0, f1, f2, f3};
static float g_border(Src& s) {
	static const float e[] = {1.f, 0.f, -0.f, 0.5f, -1.f, 2.f, 0.0031308f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), 1e-45f, 1e30f};
	float b = s.flip() ? e[s.draw(11)] : g_unit(s);
	if (s.chance(1, 4)) b = nextafterf(b, s.flip() ? 9.f : -9.f);
	return b;
}
template <class A, class B> static void cmp6(A& l, B& r, bool eq, bool lt, bool gt, const char* what) {
	if ((l < r) != lt || (l > r) != gt || (l <= r) != !gt || (l >= r) != !lt) fail("%s: < %d > %d <= %d >= %d, expected less %d greater %d", what, l < r, l > r, l <= r, l >= r, lt, gt);
	if ((l == r) != eq || (l != r) != !eq) fail("%s: == gives %d and != gives %d, expected equal %d", what, l == r, l != r, eq);
}
template <class T> static void cmp_eq(T& l, T& r, bool eq, const char* what) {
	const T &cl = l, &cr = r;
	if ((l == r) != eq || (l != r) != !eq) fail("%s: == gives %d and != gives %d, expected equal %d", what, l == r, l != r, eq);
	if ((cl == cr) != eq || (cl != cr) != !eq) fail("%s (const): == gives %d and != gives %d, expected equal %d", what, cl == cr, cl != cr, eq);
}
static void c24_parts(Src& s) {
	struct P { cs::gamma_part* p; int f; float b; };
	std::vector<P> v; int n = s.range(2, 10); bool wrote = false;
	auto fnof = [](int f) { return f < 0 ? std::function<float(float)>() : std::function<float(float)>(FN[f]); };
	for (int i = 0; i < n; ++i) {
		int op = v.empty() ? (int)s.draw(3) : (int)s.draw(7), f = (int)s.draw(5) - 1; float b = g_border(s);
		if (!v.empty() && s.chance(1, 3)) b = v[s.draw((uint32_t)v.size())].b;
		size_t w = v.empty() ? 0 : s.draw((uint32_t)v.size()), o = v.empty() ? 0 : s.draw((uint32_t)v.size());
		switch (op) {
		case 0: v.push_back({f < 0 ? new cs::gamma_part(nullptr, b) : new cs::gamma_part(FN[f], b), f, b}); s.note("part %zu: function %d up to %.9g", v.size() - 1, f, b); break;
		case 1: v.push_back({new cs::gamma_part(), -1, 1.f}); s.note("part %zu: default", v.size() - 1); break;
		case 2: v.push_back({new cs::gamma_part(fnof(f)), f, 1.f}); s.note("part %zu: function %d", v.size() - 1, f); break;
		case 3: v.push_back({new cs::gamma_part(*v[w].p), v[w].f, v[w].b}); s.note("part %zu: copy of %zu", v.size() - 1, w); break;
		case 4: *v[o].p = *v[w].p; v[o].f = v[w].f; v[o].b = v[w].b; s.note("part %zu = part %zu", o, w); wrote = true; break;
		case 5: v[w].p->set_upper_border(b); v[w].b = b; s.note("part %zu: border %.9g", w, b); wrote = true; break;
		default: v[w].p->set_gamma_function(fnof(f)); v[w].f = f; s.note("part %zu: function %d set", w, f); wrote = true; break;
		}
		float x = g_unit(s);
		for (size_t k = 0; k < v.size(); ++k) {
			auto fn = v[k].p->get_gamma_function();
			if (v[k].p->get_upper_border() != v[k].b) fail("part %zu has border %.9g instead of %.9g", k, v[k].p->get_upper_border(), v[k].b);
			if ((bool)fn != (v[k].f >= 0)) fail("part %zu %s a function", k, fn ? "has" : "has not");
			if (fn && fn(x) != FN[v[k].f](x)) fail("part %zu computes %.9g for %.9g instead of %.9g", k, fn(x), x, FN[v[k].f](x));
			for (size_t j = 0; j < v.size(); ++j) {
				cs::gamma_part &l = *v[k].p, &r = *v[j].p; const cs::gamma_part &cl = l, &cr = r;
				bool eq = v[k].b == v[j].b && v[k].f == v[j].f, lt = v[k].b < v[j].b, gt = v[k].b > v[j].b;
				cmp6(l, r, eq, lt, gt, fmt("parts %zu and %zu", k, j).c_str()); cmp6(cl, cr, eq, lt, gt, fmt("constant parts %zu and %zu", k, j).c_str());
			}
		}
	}
	s.nt = v.size() >= 2; s.tag(wrote ? "parts, changed" : "parts");
}
static void c24_curves(Src& s) {
	std::vector<cs::gamma_part*> pool; int np = s.range(1, 6); std::vector<float> bs;
	for (int i = 0; i < np; ++i) { float b = 0.1f + 0.125f * i; bs.push_back(b); pool.push_back(new cs::gamma_part(FN[s.draw(4)], b)); }
	struct C { cs::gamma* c; std::vector<int> g[2]; };
	auto list = [&](const std::vector<int>& w) { std::vector<cs::gamma_part*> r; for (int i : w) r.push_back(pool[i]); return r; };
	auto draw = [&]() { std::vector<int> r; int q = s.range(0, 5); for (int i = 0; i < q; ++i) r.push_back((int)s.draw((uint32_t)np)); return r; };
	std::vector<C> v; int n = s.range(2, 10); bool wrote = false;
	for (int i = 0; i < n; ++i) {
		int op = v.empty() ? (int)s.draw(2) : (int)s.draw(8); size_t w = v.empty() ? 0 : s.draw((uint32_t)v.size()), o = v.empty() ? 0 : s.draw((uint32_t)v.size());
		switch (op) {
		case 0: { C c; c.g[0] = draw(); c.g[1] = draw(); c.c = new cs::gamma(list(c.g[0]), list(c.g[1])); v.push_back(c); s.note("curve %zu of %zu and %zu parts", v.size() - 1, c.g[0].size(), c.g[1].size()); break; }
		case 1: { C c; c.c = new cs::gamma(); v.push_back(c); s.note("curve %zu: empty", v.size() - 1); break; }
		case 2: { C c = v[w]; const cs::gamma& src = *v[w].c; c.c = new cs::gamma(src); v.push_back(c); s.note("curve %zu: copy of %zu", v.size() - 1, w); break; }
		case 3: { *v[o].c = *v[w].c; for (int k = 0; k < 2; ++k) v[o].g[k] = std::vector<int>(v[w].g[k]); s.note("curve %zu = curve %zu", o, w); wrote = true; break; }
		case 4: { int p = (int)s.draw((uint32_t)np); v[w].c->add_gamma_curve_part(pool[p]); v[w].g[0].push_back(p); s.note("part %d added to %zu", p, w); wrote = true; break; }
		case 5: { int p = (int)s.draw((uint32_t)np); v[w].c->add_inverse_gamma_curve_part(pool[p]); v[w].g[1].push_back(p); s.note("inverse part %d added to %zu", p, w); wrote = true; break; }
		case 6: { v[w].g[0] = draw(); v[w].c->set_gamma_curve_parts(list(v[w].g[0])); s.note("parts of %zu set", w); wrote = true; break; }
		default: { v[w].g[1] = draw(); v[w].c->set_inverse_gamma_curve_parts(list(v[w].g[1])); s.note("inverse parts of %zu set", w); wrote = true; break; }
		}
		for (size_t k = 0; k < v.size(); ++k) {
			for (int q = 0; q < 2; ++q) { // parts in ascending order of their (distinct) borders
				std::vector<int> m = v[k].g[q]; std::sort(m.begin(), m.end());
				auto got = q ? v[k].c->get_inverse_gamma_curve_parts() : v[k].c->get_gamma_curve_parts();
				if (got != list(m)) fail("the %s parts of curve %zu are not those it was given", q ? "inverse" : "default", k);
			}
			for (size_t j = 0; j < v.size(); ++j) {
				bool eq = true;
				for (int q = 0; q < 2; ++q) { std::vector<int> a = v[k].g[q], b = v[j].g[q]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); eq = eq && a == b; }
				cmp_eq(*v[k].c, *v[j].c, eq, fmt("curves %zu and %zu", k, j).c_str());
			}
		}
	}
	s.nt = v.size() >= 2; s.tag(wrote ? "curves, changed" : "curves");
}
static void c24_whites(Src& s) {
	typedef std::array<float, 3> A3;
	struct M { cs::white_point* w; A3 t, c; };
	std::vector<M> v; int n = s.range(2, 9);
	auto read = [](cs::white_point* w) { return M{w, w->get_tristimulus(), w->get_chromaticity_coordinate()}; };
	for (int i = 0; i < n; ++i) {
		int op = v.empty() ? (int)s.draw(2) : (int)s.draw(6); size_t k = v.empty() ? 0 : s.draw((uint32_t)v.size()), o = v.empty() ? 0 : s.draw((uint32_t)v.size());
		switch (op) {
		case 0: v.push_back(read(g_white(s))); s.note("white %zu", v.size() - 1); break;
		case 1: v.push_back({new cs::white_point(), A3{}, A3{}}); s.note("white %zu: default", v.size() - 1); break;
		case 2: v.push_back({new cs::white_point(*v[k].w), v[k].t, v[k].c}); s.note("white %zu: copy of %zu", v.size() - 1, k); break;
		case 3: *v[o].w = *v[k].w; v[o].t = A3(v[k].t); v[o].c = A3(v[k].c); s.note("white %zu = white %zu", o, k); break;
		case 4: { // one of the five numbers differs by a unit in the last place or more
			float x[5] = {v[k].t[0], v[k].t[1], v[k].t[2], v[k].c[0], v[k].c[1]}; int q = (int)s.draw(5); x[q] = s.flip() ? nextafterf(x[q], 9.f) : x[q] * 1.5f + 0.01f;
			M m{new cs::white_point(x[0], x[1], x[2], x[3], x[4]), {{x[0], x[1], x[2]}}, {}}; m.c = m.w->get_chromaticity_coordinate();
			if (m.c[0] != x[3] || m.c[1] != x[4]) fail("a white point has other chromaticities than it was given");
			v.push_back(m); s.note("white %zu: number %d of %zu changed", v.size() - 1, q, k); break; }
		default: { M m = v[k]; std::array<float, 2> c{{m.c[0], m.c[1]}}; m.w = new cs::white_point(m.t, c); m.c = m.w->get_chromaticity_coordinate(); v.push_back(m); s.note("white %zu: rebuilt from %zu", v.size() - 1, k); break; }
		}
		for (size_t a = 0; a < v.size(); ++a) {
			if (v[a].w->get_tristimulus() != v[a].t || v[a].w->get_chromaticity_coordinate() != v[a].c) fail("white point %zu changed or was copied wrongly", a);
			for (size_t b = 0; b < v.size(); ++b) cmp_eq(*v[a].w, *v[b].w, v[a].t == v[b].t && v[a].c == v[b].c, fmt("white points %zu and %zu", a, b).c_str());
		}
	}
	s.nt = v.size() >= 2; s.tag("white points");
}
static void c24_spaces(Src& s) {
	struct M { RgbDef* d; std::array<float, 3> p[3]; cs::white_point* w; cs::gamma* g; matrix<float> m, i; };
	auto read = [](RgbDef* d) { return M{d, {d->get_red_chromaticity_coordinate(), d->get_green_chromaticity_coordinate(), d->get_blue_chromaticity_coordinate()}, d->get_white_point(), d->get_gamma_curve(), d->get_transform_matrix(), d->get_inverse_transform_matrix()}; };
	auto same = [](matrix<float> a, matrix<float> b) { if (a.rows() != b.rows() || a.columns() != b.columns()) return false; for (int r = 0; r < a.rows(); ++r) for (int c = 0; c < a.columns(); ++c) if (a(r, c) != b(r, c)) return false; return true; };
	std::vector<M> v; int n = s.range(2, 8); bool wrote = false;
	for (int i = 0; i < n; ++i) {
		int op = v.empty() ? 0 : (int)s.draw(7); size_t k = v.empty() ? 0 : s.draw((uint32_t)v.size()), o = v.empty() ? 0 : s.draw((uint32_t)v.size());
		auto as = [&](M& dst, const M& src) { RgbDef* d = dst.d; dst = M(src); dst.d = d; };
		switch (op) {
		case 0: { DefGen g = g_def(s); v.push_back(read(g.d)); s.note("space %zu: %s", v.size() - 1, g.name.c_str()); break; }
		case 1: { M m = v[k]; m.d = new RgbDef(*v[k].d); v.push_back(m); s.note("space %zu: copy of %zu", v.size() - 1, k); break; }
		case 2: { *v[o].d = *v[k].d; as(v[o], v[k]); s.note("space %zu = space %zu", o, k); wrote = true; break; }
		case 3: { M m = v[k]; m.d = new RgbDef(); *m.d = *v[k].d; v.push_back(m); s.note("space %zu: default, then = %zu", v.size() - 1, k); break; }
		case 4: { cs::white_point* w = g_white(s); v[k].d->set_white_point(w); RgbDef* d = v[k].d; v[k].w = w; v[k].m = d->get_transform_matrix(); v[k].i = d->get_inverse_transform_matrix(); s.note("white of space %zu replaced", k); wrote = true; break; }
		case 5: { // the light of a white point object changes; until it is set again the spaces that have it, and their copies, keep the matrices they have
			cs::white_point *w = new cs::white_point(*g_white(s)), *q = s.flip() ? g_white(s) : g_near_white(s, w); RgbDef* d = v[k].d; d->set_white_point(w); v[k].w = w; v[k].m = d->get_transform_matrix(); v[k].i = d->get_inverse_transform_matrix();
			*w = *q; s.note("space %zu gets a new white point, which gets other values", k); wrote = true; break; }
		default: { cs::gamma_presets gp; cs::gamma* g = s.flip() ? gp.gamma2_2() : gp.gammaRomm(); v[k].d->set_gamma_curve(g); v[k].g = g; s.note("curve of space %zu replaced", k); wrote = true; break; }
		}
		for (size_t a = 0; a < v.size(); ++a) {
			M m = read(v[a].d);
			for (int q = 0; q < 3; ++q) if (m.p[q] != v[a].p[q]) fail("primary %d of space %zu differs", q, a);
			if (m.w != v[a].w && !(*m.w == *v[a].w)) fail("space %zu has another white point", a);
			if (m.g != v[a].g && !(*m.g == *v[a].g)) fail("space %zu has another curve", a);
			if (!same(m.m, v[a].m) || !same(m.i, v[a].i)) fail("a matrix of space %zu differs", a);
		}
	}
	s.nt = v.size() >= 2; s.tag(wrote ? "spaces, changed" : "spaces");
}
static void c24(Src& s) {
	switch (s.strat(4)) { case 0: c24_parts(s); break; case 1: c24_curves(s); break; case 2: c24_whites(s); break; default: c24_spaces(s); }
}
PROPERTY("C24", c24, 160000, 4000000, "pools of gamma parts (plain functions), curves, white points or RGB spaces under histories of building, copying, assigning (to itself too) and changing; after every step all objects are read and all pairs compared, constant and not, against a model; non-trivial: two or more objects");
