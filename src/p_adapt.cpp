// C21 chromatic adaptation
#include "gen.h"
#include "ops.h"
#include "manipulation/chromatic_adaptation.h"
#include <cmath>

static const M3 MAT[] = { // published cone response matrices
	{{{{0.40024, 0.7076, -0.08081}}, {{-0.2263, 1.16532, 0.0457}}, {{0, 0, 0.91822}}}},             // von Kries
	{{{{0.8951, 0.2664, -0.1614}}, {{-0.7502, 1.7135, 0.0367}}, {{0.0389, -0.0685, 1.0296}}}},      // Bradford, CMCCAT97
	{{{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}},                                                      // XYZ scaling
	{{{{1.2694, -0.0988, -0.1706}}, {{-0.8364, 1.8006, 0.0357}}, {{0.0297, -0.0315, 1.0018}}}},     // Sharp
	{{{{0.7982, 0.3389, -0.1371}}, {{-0.5918, 1.5512, 0.0406}}, {{0.0008, 0.0239, 0.9753}}}},       // CMCCAT2000
	{{{{0.7328, 0.4296, -0.1624}}, {{-0.7036, 1.6975, 0.0061}}, {{0.003, 0.0136, 0.9834}}}}};       // CAT02
static const M3& mat_of(int m) {
	switch (m) {
	case CA_VK: return MAT[0];
	case CA_BRAD_S: case CA_BRAD: case CA_97_S: case CA_97: return MAT[1];
	case CA_SCALE: return MAT[2];
	case CA_SHARP: return MAT[3];
	case CA_2000_S: case CA_2000: return MAT[4];
	}
	return MAT[5];
}
static double degree(int m, const AdaptArg& a) {
	double f = a.f, la = a.given >= 1 ? a.la : 100, lref = a.given >= 2 ? a.lref : 100, d = 1;
	if (m == CA_97) d = f - f / (1 + 2 * pow(la, 0.25) + la * la / 300);
	if (m == CA_2000) d = f * (0.08 * log10(0.5 * (la + lref)) + 0.76 - 0.45 * (la - lref) / (la + lref));
	if (m == CA_02) d = f * (1 - exp((-la - 42) / 92) / 3.6);
	return clamp1(d);
}
static V3 white_v(cs::white_point* w) { return {{(double)w->get_tristimulus_x(), (double)w->get_tristimulus_y(), (double)w->get_tristimulus_z()}}; }
// adapted tristimulus value and its accuracy
static V3 adapted(int m, const V3& X, const V3& from, const V3& to, const AdaptArg& a, V3& tol) {
	const M3& M = mat_of(m); M3 I = inverse(M); double d = degree(m, a); V3 sw = from, dw = to, x = X; bool nonlin = m == CA_BRAD || m == CA_97; double Y = nonlin && X[1] > 0 ? X[1] : 1;
	if (nonlin) for (int i = 0; i < 3; ++i) { sw[i] /= from[1]; dw[i] /= to[1]; x[i] /= Y; }
	V3 s = mul(M, sw), t = mul(M, dw), c = mul(M, x), r, e;
	for (int i = 0; i < 3; ++i) {
		double g = 0, ce; for (int j = 0; j < 3; ++j) g += fabs(M[i][j] * x[j]);
		ce = 4e-7 * g;
		if (nonlin && i == 2) {
			double p = pow(s[2] / t[2], 0.0834);
			auto f = [&](double b) { double v = m == CA_BRAD ? t[2] * pow(fabs(b / s[2]), p) : pow(fabs(b), p) * (d * t[2] / pow(s[2], p) + 1 - d); return b < 0 ? -v : v; };
			r[i] = f(c[i]); e[i] = std::max(fabs(f(c[i] + ce) - r[i]), fabs(f(c[i] - ce) - r[i])) + 2e-6 * fabs(r[i]);
		}
		else { double k = t[i] / s[i]; if (m == CA_2000) k *= from[1] / to[1]; if (m == CA_97 || m == CA_2000 || m == CA_02) k = d * k + 1 - d; r[i] = k * c[i]; e[i] = fabs(k) * ce + 4e-7 * fabs(r[i]); }
		r[i] *= Y; e[i] *= Y;
	}
	V3 o = mul(I, r); double n = 0; for (double v : r) n += fabs(v);
	for (int i = 0; i < 3; ++i) { tol[i] = 8e-6 * n + 1e-37; for (int j = 0; j < 3; ++j) tol[i] += fabs(I[i][j]) * e[j]; } // the published inverses have five digits
	return o;
}
static bool usable(RgbDef* d, cs::white_point* w) {
	double v[3][2] = {{d->get_red_x(), d->get_red_y()}, {d->get_green_x(), d->get_green_y()}, {d->get_blue_x(), d->get_blue_y()}}; M3 p;
	for (int i = 0; i < 3; ++i) { p[0][i] = v[i][0]; p[1][i] = v[i][1]; p[2][i] = 1 - v[i][0] - v[i][1]; }
	V3 s = mul(inverse(p), white_v(w)); for (int i = 0; i < 3; ++i) if (!(s[i] * v[i][1] > 1e-3)) return false;
	return true;
}
static void same_space(RgbDef* r, RgbDef* d, cs::white_point* w, const Space& now, const char* what) {
	if (!(*r->get_white_point() == *w)) fail("%s: the result's white is %g,%g,%g", what, r->get_white_point()->get_tristimulus_x(), r->get_white_point()->get_tristimulus_y(), r->get_white_point()->get_tristimulus_z());
	if (r->get_red_chromaticity_coordinate() != d->get_red_chromaticity_coordinate() || r->get_green_chromaticity_coordinate() != d->get_green_chromaticity_coordinate() || r->get_blue_chromaticity_coordinate() != d->get_blue_chromaticity_coordinate()) fail("%s: the result has other primaries", what);
	for (float x : {0.f, 0.001f, 0.02f, 0.2f, 0.7f, 1.f}) if (r->get_gamma_curve()->gamma_correction(x) != d->get_gamma_curve()->gamma_correction(x) || r->get_gamma_curve()->inverse_gamma_correction(x) != d->get_gamma_curve()->inverse_gamma_correction(x)) fail("%s: the result has another gamma curve", what);
	auto tm = r->get_transform_matrix(), ti = r->get_inverse_transform_matrix(); double big = 0, bm = 0; for (auto& q : now.mi) for (double v : q) big = std::max(big, fabs(v)); for (auto& q : now.m) for (double v : q) bm = std::max(bm, fabs(v)); double cond = big * bm;
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
		if (!(fabs(tm(i, j) - now.m[i][j]) <= 3e-5 * bm * cond)) fail("%s: the result's RGB to XYZ matrix does not belong to the new white: (%d,%d) is %.9g instead of %.9g", what, i, j, tm(i, j), now.m[i][j]);
		if (!(fabs(ti(i, j) - now.mi[i][j]) <= 3e-5 * big * cond)) fail("%s: the result's XYZ to RGB matrix does not belong to the new white: (%d,%d) is %.9g instead of %.9g", what, i, j, ti(i, j), now.mi[i][j]);
	}
}
static void c21(Src& s) {
	int m = (int)s.strat(N_ADAPT), t = (int)s.strat(NT), kind = (int)s.strat(5);
	DefGen g = s.chance(1, 2) ? g_def(s) : DefGen{preset_def(0), "sRGB"}; RgbDef* d = g.d; cs::white_point* w0 = d->get_white_point();
	cs::white_point* w = g_white(s); if (s.chance(1, 8)) { auto y = w->get_tristimulus(); float k = 0.5f + s.draw(16) / 8.f; w = new cs::white_point(y[0] * k, y[1] * k, y[2] * k); }
	if (kind == 1 && s.chance(1, 2)) w = s.flip() ? w0 : new cs::white_point(*w0);
	AdaptArg a; a.f = s.flip() ? 1.f : 0.8f + s.draw(3) * 0.1f; if (s.chance(1, 8)) a.f = g_unit(s) * 1.5f;
	a.given = (int)s.draw(3); auto lum = [&]() { switch (s.draw(5)) { case 0: return 100.f; case 4: return powf(10.f, -(float)s.range(0, 9));  case 1: return (float)s.range(1, 1000); case 2: return 0.01f + g_unit(s); default: return (float)s.range(1, 200); } };
	a.la = lum(); a.lref = lum();
	Val v = kind == 2 ? to_val(ref_convert(space_of(d), dv(RGBD, 1, 1, 1, g_alpha(s), d), t)) : kind == 3 ? g_full(s, t, d) : g_color(s, t, d);
	if (t == XYZt && kind == 2) { for (int i = 0; i < 3; ++i) v.c[i] = w0->get_tristimulus()[i]; }
	else if (t == XYZt && s.flip()) for (auto& x : v.c) x *= 0.2f;
	Color* c = make(v); v = snap(c);
	std::string W = fmt("%s(%s, white %.9g,%.9g,%.9g%s", ADAPT_NAME[m], show(v).c_str(), w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z(), w == w0 ? ", the same object" : "") + (m >= CA_97 ? fmt(", f=%g", a.f) + (a.given > 0 ? fmt(" la=%g", a.la) : "") + (a.given > 1 && m == CA_2000 ? fmt(" lref=%g", a.lref) : "") : "") + fmt(") in %s, white %.9g,%.9g,%.9g", g.name.c_str(), w0->get_tristimulus_x(), w0->get_tristimulus_y(), w0->get_tristimulus_z());
	const char* what = W.c_str(); s.note("%s", what);
	if (is_device(t) && !usable(d, w)) { s.tag("white outside the primaries"); discard(); }
	s.tag(ADAPT_NAME[m]);
	Space before = space_of(d); auto tm = d->get_transform_matrix();
	Color* r = op_adapt(m, c, w, a); check_valid(r, what);
	if (!(snap(c) == v) || d->get_white_point() != w0 || !(d->get_transform_matrix() == tm)) fail("%s: the colour or its RGB space changed", what);
	Val x = snap(r); if (x.t != t) fail("%s: result is %s", what, show(x).c_str());
	if (w == w0) { if (x.c != v.c || x.a != v.a || !(*x.d->get_white_point() == *w0)) fail("%s: result is %s", what, show(x).c_str()); s.tag("same white object"); return; }
	if (r == c) fail("%s: not a fresh colour", what);
	if (x.d == d) fail("%s: the result shares its RGB space with the colour", what);
	register_curve(x.d, before.g); Space sp = space_of(x.d);
	if (is_device(t) || usable(d, w)) same_space(x.d, d, w, sp, what);
	Val X = snap(convert(c, XYZt)); V3 tol, e = adapted(m, {{X.c[0], X.c[1], X.c[2]}}, white_v(w0), white_v(w), a, tol);
	bool inside = true; for (int i = 0; i < 3; ++i) inside = inside && e[i] > 0 && e[i] < 100;
	if ((m == CA_BRAD || m == CA_97) && X.c[1] > 0 && !((double)X.c[0] + X.c[2] < 1e6 * X.c[1] && X.c[1] > 1e-30)) { s.tag("imaginary colour, normalised by nearly no luminance"); return; }
	DV E = dv(XYZt, e[0], e[1], e[2], v.a, x.d);
	expect_image(sp, x, E, {{tol[0], tol[1], tol[2], 0}}, t == XYZt ? 1e-7 : t == XYYt ? 1e-5 : is_device(t) ? 4e-5 : 5e-3, what);
	double full = degree(m, a);
	if (kind == 2 && full == 1 && t == XYZt) { // white to white
		s.tag("white to white"); V3 ww = white_v(w); double k = white_v(w0)[1] / ww[1]; if (m != CA_2000 && m != CA_BRAD && m != CA_97) k = 1; bool scaled = k != 1;
		if (!scaled || m == CA_BRAD || m == CA_97) for (int i = 0; i < 3; ++i) if (!(fabs(x.c[i] - std::min(100., ww[i] * k)) <= 2e-5 * k * (ww[0] + ww[1] + ww[2]))) fail("%s: the white becomes %s", what, show(x).c_str());
	}
	bool linear = m < CA_BRAD || m == CA_2000 || m == CA_02;
	if (kind == 4 && t == XYZt && inside && linear && full == 1) { // and back
		s.tag("there and back"); Color* b = op_adapt(m, r, w0, a); Val y = snap(b); double n = 1e-9; for (float q : v.c) n += q; for (float q : x.c) n += q;
		for (int i = 0; i < 3; ++i) if (!(fabs(y.c[i] - v.c[i]) <= 4e-4 * n)) fail("%s: adapted back it is %s", what, show(y).c_str());
	}
	if (m == CA_97 || m == CA_2000) { float l = g_unit(s) * 500, q = g_unit(s) * 200; double e1 = (double)l * q / 100; typedef cm::chromatic_adaptation CA;
		if (!(fabs(CA::calculate_adapting_luminance(l, q) - e1) <= 1e-6 * e1 + 1e-30) || !(fabs(CA::calculate_adapting_luminance(l) - l) <= 1e-6 * l)) fail("calculate_adapting_luminance(%g, %g) is %g", l, q, CA::calculate_adapting_luminance(l, q)); }
	if (full < 1) s.tag("partial adaptation"); if (!inside) s.tag("outside XYZ range");
	s.nt = (X.c[0] > 0 || X.c[1] > 0 || X.c[2] > 0) && !(*w == *w0);
}
PROPERTY("C21", c21, 100000, 2000000, "the 11 methods and 15 types in turn; colours in and out of gamut, the white itself, predefined and random RGB spaces and target whites (also scaled ones, the same object and an equal one), surround factors and luminances given or defaulted; against the published transform in double precision, with the resulting RGB space checked, white to white and there and back; non-trivial: colour not black and another white");
