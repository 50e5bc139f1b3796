// C07 device conversions, C08 CIE conversions, C09 round trips, C10 the full conversion matrix
#include "gen.h"
#include <cmath>

static bool whole(double x) { return fabs(x - floor(x + 0.5)) < 1e-4; }
static void rounded_alpha(const Val& act, double a, const char* what) {
	double x = act.a * 255.0;
	if (!whole(x) || !(fabs(x - a * 255) <= 0.5 + 1e-4)) fail("%s: alpha %.9g is not %.9g rounded to 8 bits", what, act.a, a);
}
// device colour v (exact) converted to device type `to`, within eps of the RGB cube
static void expect_device(const Val& act, const DV& v, int to, double eps, const char* what0) {
	std::string w = fmt("%s: %s to %s", what0, show(v).c_str(), TNAME[to]); const char* what = w.c_str();
	if (act.t != to) fail("%s gives type %d", what, act.t);
	if (act.d != v.d) fail("%s changes the RGB space", what);
	if (v.t == to || !is_true(to) || is_true(v.t)) { expect_near(act, ref_convert(Space(), v, to), eps, what); return; }
	V3 rgb = dev_to_rgb(v.t, v.c);
	rounded_alpha(act, v.a, what);
	if (to == RGBT) { for (int i = 0; i < 3; ++i) if (!whole(act.c[i]) || !(fabs(act.c[i] - rgb[i] * 255) <= 0.5 + 255 * eps)) fail("%s: component %d is %.9g, expected %.9g rounded", what, i, act.c[i], rgb[i] * 255); return; }
	double lo = 0, hi = 0;
	for (double x : rgb) { lo += floor(x * 255 - 255 * eps + 0.5); hi += floor(x * 255 + 255 * eps + 0.5); }
	double s = act.c[0] * 3.0;
	if (!(fabs(s - floor(s + 0.5)) < 1e-3) || !(s >= lo - 1e-3 && s <= hi + 1e-3)) fail("%s: grey is %.9g, expected %.9g (average of the 8-bit channels)", what, act.c[0], lo / 3);
}
static void c07(Src& s) {
	int pair = (int)s.strat(81), a = pair / 9, b = pair % 9;
	DefGen g = s.chance(1, 4) ? g_def(s) : DefGen{preset_def(0), "sRGB"};
	Val v = g_color(s, a, g.d);
	if (a != RGBD && s.chance(1, 6)) v = g_full(s, a, g.d);
	Color* c = make(v); v = snap(c);
	s.note("%s to %s in %s", show(v).c_str(), TNAME[b], g.name.c_str());
	Color* r = convert(c, b); check_valid(r, "conversion"); Val act = snap(r);
	expect_device(act, dv(v), b, 3e-6, "conversion");
	if ((a == HSVt && b == HSLt) || (a == HSLt && b == HSVt)) if (!hue_close(act.c[0], v.c[0], 1e-3)) fail("%s to %s: hue becomes %.9g", show(v).c_str(), TNAME[b], act.c[0]);
	if (is_hsx(b) && (a == GT || a == GD || ((a == RGBT || a == RGBD) && v.c[0] == v.c[1] && v.c[1] == v.c[2])) && act.c[0] != 0) fail("%s to %s: a grey gets hue %.9g", show(v).c_str(), TNAME[b], act.c[0]);
	// the RGB space plays no role
	if (s.chance(1, 3)) { DefGen g2 = g_other(s, g); Val v2 = v; v2.d = g2.d; Val act2 = snap(convert(make(v2), b)); act2.d = act.d; if (!(act2 == act)) fail("%s to %s depends on the RGB space: %s in %s, %s in %s", show(v).c_str(), TNAME[b], show(act).c_str(), g.name.c_str(), show(act2).c_str(), g2.name.c_str()); }
	V3 rgb = dev_to_rgb(a, dv(v).c); double mx = std::max(rgb[0], std::max(rgb[1], rgb[2])), mn = std::min(rgb[0], std::min(rgb[1], rgb[2]));
	s.tag(mx == mn ? (mx == 0 ? "black" : mx == 1 ? "white" : "grey") : mn == 0 || mx == 1 ? "boundary" : "interior");
	s.nt = a != b && (mx != mn || a == GT || a == GD);
}
PROPERTY("C07", c07, 400000, 8000000, "all 81 ordered pairs of device types in turn, colours from the whole range and images of RGB colours (greys, black, white, pure hues, sector boundaries, 8-bit values, near-equal channels), against double-precision formulas with 8-bit rounding, and again in another RGB space; non-trivial: different types and a colour that is not grey (or a grey type)");

// ---- C08 ----
struct Iv { double lo, hi; };
static Iv around(const std::function<double(double)>& f, double lo, double hi) {
	Iv r{1e300, -1e300}; for (double x : {lo, hi}) { double y = f(x); r.lo = std::min(r.lo, y); r.hi = std::max(r.hi, y); } return r;
}
static void in(double x, double lo, double hi, const char* what, int i) { if (!(x >= lo && x <= hi)) fail("%s: component %d is %.9g, expected %.9g..%.9g", what, i, x, lo, hi); }
static double sum3(const V3& v) { return fabs(v[0]) + fabs(v[1]) + fabs(v[2]); }
static V3 v3(const Val& v) { return {{v.c[0], v.c[1], v.c[2]}}; }
static void check_frame(const Val& v, const Val& act, int to, const char* what) {
	if (act.t != to) fail("%s gives type %d", what, act.t);
	if (act.d != v.d) fail("%s changes the RGB space", what);
	if (!(fabs(act.a - v.a) <= 2e-6)) fail("%s: alpha becomes %.9g", what, act.a);
}
static bool singular(const Space& sp, const V3& luv) { // chromaticity at or below the edge where u',v' -> XYZ divides by nothing
	if (luv[0] == 0) return false;
	double n = sp.white[0] + 15 * sp.white[1] + 3 * sp.white[2], u = luv[1] / (13 * luv[0]) + 4 * sp.white[0] / n, w = luv[2] / (13 * luv[0]) + 9 * sp.white[1] / n;
	return !(u > 0.01 && w > 0.01 && u < 5 && w < 5);
}
// one direct formula between CIE types or RGB, on the library's own float input
static void primitive(const Space& sp, const Val& v, int to, const Val& act) {
	std::string w = fmt("%s to %s", show(v).c_str(), TNAME[to]); const char* what = w.c_str();
	check_frame(v, act, to, what);
	V3 x = v3(v), a = v3(act);
	auto clampc = [&](double y, int i) { return clampd(y, lo_of(to, i), hi_of(to, i)); };
	auto cmp = [&](const V3& e, const V3& tol) { for (int i = 0; i < 3; ++i) in(a[i], clampc(e[i] - tol[i] - 1e-33, i), clampc(e[i] + tol[i] + 1e-33, i), what, i); };
	auto hue_cmp = [&](const V3& e, double tol) { if (!hue_close(a[2], e[2], tol)) fail("%s: hue is %.9g, expected %.9g", what, a[2], e[2]); };
	switch (v.t * 100 + to) {
	case RGBD * 100 + XYZt: {
		V3 lo, hi; for (int i = 0; i < 3; ++i) { Iv q = around(sp.g.dec, x[i] - 1e-7, x[i] + 1e-7); Iv m = around(sp.g.dec, x[i], x[i]); lo[i] = clamp1(std::min(q.lo, m.lo) - 1e-6); hi[i] = clamp1(std::max(q.hi, m.hi) + 1e-6); }
		for (int i = 0; i < 3; ++i) { double l = 0, h = 0, mag = 0; for (int j = 0; j < 3; ++j) { double k = sp.m[i][j]; l += k * (k > 0 ? lo[j] : hi[j]); h += k * (k > 0 ? hi[j] : lo[j]); mag += fabs(k); } in(a[i], clampc(l - 1e-5 * mag, i), clampc(h + 1e-5 * mag, i), what, i); }
		break; }
	case XYZt * 100 + RGBD:
		for (int i = 0; i < 3; ++i) { double l = 0, mag = 0, top = 0; for (int j = 0; j < 3; ++j) { l += sp.mi[i][j] * x[j]; mag += fabs(sp.mi[i][j] * x[j]); for (auto& row : sp.mi) top = std::max(top, fabs(row[j])); } mag += 0.1 * top * sum3(x); // the library's matrices are inverted in float
			 Iv q = around(sp.g.enc, clamp1(l - 1e-5 * mag - 1e-9), clamp1(l + 1e-5 * mag + 1e-9)); in(a[i], clamp1(q.lo) - 3e-6, clamp1(q.hi) + 3e-6, what, i); }
		break;
	case XYZt * 100 + XYYt: { V3 e = xyz_to_xyy(sp, x); if (sum3(x) > 0 && sum3(x) < 1e-36) { in(a[2], e[2], e[2], what, 2); break; } // 1 / sum overflows
		 cmp(e, {{2e-6, 2e-6, 0}}); break; }
	case XYYt * 100 + XYZt: { bool under = false; for (double y : x) under = under || (y > 0 && y < 1e-15); if (under) break; // products underflow
		 V3 e = xyy_to_xyz(x); cmp(e, {{4e-6 * e[0], 0, 3e-6 * (fabs(e[2]) + (x[1] > 0 ? (1 + x[0]) * x[2] / x[1] : 0))}}); break; }
	case XYZt * 100 + LABt: { V3 e = xyz_to_lab(sp, x); double f = 1 + cbrt(x[0] / sp.white[0]) + cbrt(x[1] / sp.white[1]) + cbrt(x[2] / sp.white[2]); cmp(e, {{5e-5 * f, 2e-4 * f, 1e-4 * f}}); break; }
	case LABt * 100 + XYZt: { V3 e = lab_to_xyz(sp, x), t; for (int i = 0; i < 3; ++i) { double r = pow(std::max(0.0, e[i] / sp.white[i]), 2. / 3) + 0.01; t[i] = 3e-6 * sp.white[i] * (3 * r + e[i]); } cmp(e, t); break; }
	case XYZt * 100 + LUVt: {
		V3 e = xyz_to_luv(sp, x); if (sum3(x) > 0 && sum3(x) < 1e-36) { in(a[0], 0, 1e-30, what, 0); break; }
		double L = e[0], n = x[0] + 15 * x[1] + 3 * x[2];
		double du = n > 0 ? 4e-7 * 4 * x[0] / n : 0, dw = n > 0 ? 4e-7 * 9 * x[1] / n : 0;
		// the library switches at 0.008856 with slope 903.3, the exact numbers differ by 4e-6
		double dL = 1e-5 * (1 + L); cmp(e, {{dL, 13 * L * (du + 6e-7) + fabs(e[1]) * 2e-5 + 1e-6, 13 * L * (dw + 6e-7) + fabs(e[2]) * 2e-5 + 1e-6}}); break; }
	case LUVt * 100 + XYZt: {
		if (singular(sp, x)) break;
		V3 e = luv_to_xyz(sp, x); if (x[0] == 0) { cmp(e, {{0, 0, 0}}); break; }
		double n = sp.white[0] + 15 * sp.white[1] + 3 * sp.white[2], u0 = 4 * sp.white[0] / n, w0 = 9 * sp.white[1] / n, u = x[1] / (13 * x[0]) + u0, q = x[2] / (13 * x[0]) + w0;
		double du = 3e-7 * (u0 + fabs(u - u0) + u), dw = 3e-7 * (w0 + fabs(q - w0) + q), dY = 1e-5 * e[1];
		cmp(e, {{e[0] * (du / u + dw / q + 2e-5) + 1e-5 * e[1], dY, fabs(e[2]) * 2e-5 + e[1] * ((3 * du + 20 * dw) / (4 * q) + fabs(12 - 3 * u - 20 * q) / (4 * q) * dw / q + 1e-5 * (1 + u / q))}}); break; }
	case LABt * 100 + LCHAB: case LUVt * 100 + LCHUV: { V3 e = ab_to_lch(x); cmp({{e[0], e[1], a[2]}}, {{0, 2e-6 * e[1] + 1e-18, 0}}); if (e[1] > 1e-15) hue_cmp(e, 1e-4); break; }
	case LCHAB * 100 + LABt: case LCHUV * 100 + LUVt: { V3 e = lch_to_ab(x); cmp(e, {{0, 1e-6 * x[1] + 1e-12, 1e-6 * x[1] + 1e-12}}); break; }
	default: fail("no primitive %s", what);
	}
}
static const int PRIM[][2] = {{RGBD, XYZt}, {XYZt, RGBD}, {XYZt, XYYt}, {XYYt, XYZt}, {XYZt, LABt}, {LABt, XYZt}, {XYZt, LUVt}, {LUVt, XYZt}, {LABt, LCHAB}, {LCHAB, LABt}, {LUVt, LCHUV}, {LCHUV, LUVt}};
static int towards(int a, int b) { // next hop of the route from a to b
	if (a == b) return b;
	auto hub = [](int t) { return t == LCHAB ? LABt : t == LCHUV ? LUVt : is_device(t) ? RGBD : XYZt; };
	if (a == RGBT && (b == GT || b == GD)) return b;
	if ((a == GT || a == GD) && (b == RGBT || b == GT || b == GD)) return b;
	if ((a == HSVt && b == HSLt) || (a == HSLt && b == HSVt)) return b;
	if (is_device(a) && is_device(b)) return a == RGBD || b == RGBD ? b : RGBD;
	if (is_device(a)) return a == RGBD ? XYZt : RGBD;
	if (a == XYZt) return is_device(b) ? RGBD : b == LCHAB ? LABt : b == LCHUV ? LUVt : b;
	if (hub(a) == b || hub(b) == a) return b;
	return hub(a);
}
static std::vector<int> route(int a, int b) { std::vector<int> r{a}; while (a != b) { a = towards(a, b); r.push_back(a); } return r; }
static bool any_singular(const Space& sp, const Val& v) { return v.t == LUVt && singular(sp, v3(v)); }
// compares the direct conversion with separate steps over the public interface
static void composed(const Space& sp, const Val& v, int to, const Val& act) {
	auto r = route(v.t, to); Color* c = make(v); std::string how; bool sing = any_singular(sp, snap(c)), dark = false;
	for (size_t i = 1; i < r.size(); ++i) { c = convert(c, r[i]); if (!c) fail("%s to %s: no colour", show(v).c_str(), TNAME[r[i]]); how += std::string(" ") + TNAME[r[i]]; Val m = snap(c); sing = sing || any_singular(sp, m); if (m.t == LUVt && m.c[0] < 0.05) dark = true; }
	Val step = snap(c);
	if (step == act) return;
	if (sing || dark) return; // the steps amplify rounding without bound there
	std::string why; Val e = step; bool true_type = is_true(to);
	// 8-bit rounding may fall on the other side
	if (true_type) { for (int i = 0; i < NCOMP[to]; ++i) if (!(fabs(act.c[i] - e.c[i]) <= 1.01)) fail("%s to %s is %s directly, %s in steps (%s)", show(v).c_str(), TNAME[to], show(act).c_str(), show(e).c_str(), how.c_str()); return; }
	double eps = is_device(to) ? 1e-4 : to == XYZt || to == XYYt ? 1e-5 * (1 + sum3(v3(e))) : 5e-3;
	if (!near_val(act, dv(e), eps, why)) fail("%s to %s is %s directly, %s in steps (%s): %s", show(v).c_str(), TNAME[to], show(act).c_str(), show(e).c_str(), how.c_str(), why.c_str());
}
static Val g_cie(Src& s, int t, RgbDef* d, const Space& sp) {
	Val v = g_color(s, t, d);
	if (s.chance(1, 5)) { // around the switches between linear and power parts
		double e = 216.0 / 24389 * (1 + s.range(-40, 40) * 1e-3);
		switch (t) {
		case XYZt: for (int i = 0; i < 3; ++i) if (s.flip()) v.c[i] = (float)(sp.white[i] * e); break;
		case XYYt: v.c[2] = (float)e; break;
		case LUVt: case LABt: case LCHAB: case LCHUV: { v.c[0] = (float)(e * 24389.0 / 27); int i = t == LCHAB || t == LCHUV ? 1 : 1 + (int)s.draw(2); v.c[i] *= 0.1f; break; }
		case RGBD: for (int i = 0; i < 3; ++i) if (sp.g.dec_border > 0 && s.flip()) v.c[i] = (float)clamp1(sp.g.dec_border * (1 + s.range(-40, 40) * 1e-3)); break;
		}
	}
	return v;
}
static void c08(Src& s) {
	int mode = (int)s.strat(4);
	DefGen g = g_def(s); Space sp = space_of(g.d);
	if (mode < 2) {
		const int* p = PRIM[s.draw(12)];
		Val v = g_cie(s, p[0], g.d, sp); Color* c = make(v); v = snap(c);
		s.note("%s to %s in %s", show(v).c_str(), TNAME[p[1]], g.name.c_str()); s.tag(fmt("%s to %s", TNAME[p[0]], TNAME[p[1]]));
		Color* r = convert(c, p[1]); check_valid(r, fmt("%s to %s", show(v).c_str(), TNAME[p[1]]).c_str()); primitive(sp, v, p[1], snap(r));
		s.nt = v.c[0] != 0 || v.c[1] != 0 || v.c[2] != 0;
	}
	else if (mode == 2) { // any pair with a CIE side, step by step along the route, each step against its formula
		int a, b; do { a = g_type(s); b = g_type(s); if (is_device(a) && is_device(b)) b = XYZt + (int)s.draw(6); } while (a == b);
		Val v = is_device(a) ? g_color(s, a, g.d) : g_cie(s, a, g.d, sp); Color* c = make(v); v = snap(c);
		s.note("%s to %s in %s", show(v).c_str(), TNAME[b], g.name.c_str()); s.tag("chain");
		Color* r = convert(c, b); check_valid(r, fmt("%s to %s", show(v).c_str(), TNAME[b]).c_str());
		composed(sp, v, b, snap(r));
		auto way = route(a, b); Color* q = c;
		for (size_t i = 1; i < way.size(); ++i) { Val from = snap(q); q = convert(q, way[i]); Val to = snap(q); if (is_device(from.t) && is_device(to.t)) expect_device(to, dv(from), to.t, 3e-6, "step"); else primitive(sp, from, to.t, to); }
		s.nt = way.size() > 2;
	}
	else { // neutral colours and white
		static const int from[] = {RGBD, GD, RGBT, GT, HSVt, HSLt, HSIt, HCYt, CMYKt};
		int a = from[s.draw(9)]; double x = s.chance(1, 4) ? 1.0 : g_unit(s);
		DV n = dv(RGBD, x, x, x, g_alpha(s), g.d); if (a == RGBT || a == GT) n = dv(a, x * 255, x * 255, x * 255, n.a, g.d); else n = ref_convert(sp, n, a);
		Val v = to_val(n); Color* c = make(v); v = snap(c); V3 rgb = dev_to_rgb(a, dv(v).c);
		s.note("neutral %s in %s", show(v).c_str(), g.name.c_str()); s.tag("neutral");
		static const int to[] = {LABt, LUVt, LCHAB, LCHUV, XYZt, XYYt}; int t = to[s.draw(6)]; Color* rc = convert(c, t); check_valid(rc, "neutral"); Val r = snap(rc);
		Iv dl = around(sp.g.dec, rgb[0] * (1 - 2e-7), rgb[0] * (1 + 2e-7)); double jump = dl.hi - dl.lo, lin = clamp1(sp.g.dec(rgb[0])), L = lin > 216.0 / 24389 ? 116 * cbrt(lin) - 16 : lin * 24389 / 27, cond = 0; for (auto& row : sp.m) for (double m : row) cond += fabs(m);
		std::string w = fmt("neutral %s to %s in %s", show(v).c_str(), show(r).c_str(), g.name.c_str()); const char* what = w.c_str();
		double tol = 2e-3 * cond, sw = sp.white[0] + sp.white[1] + sp.white[2]; // matrices are floats
		auto fl = [](double y) { return y > 216.0 / 24389 ? cbrt(y) : y * 24389 / 27 / 116 + 16.0 / 116; }; // channels an ulp apart may fall on two sides of the curve's switch
		tol += (500 * (fl(dl.hi) - fl(dl.lo)) + (lin > 0 ? 13 * L * jump / lin : 0)) * cond / sw;
		if (t == LABt || t == LUVt) { in(r.c[1], -tol, tol, what, 1); in(r.c[2], -tol, tol, what, 2); }
		if (t == LCHAB || t == LCHUV) in(r.c[1], 0, 1.5 * tol, what, 1);
		if (t == XYZt) for (int i = 0; i < 3; ++i) in(r.c[i], lin * sp.white[i] - (1e-5 + jump) * cond, lin * sp.white[i] + (1e-5 + jump) * cond, what, i);
		else if (t == XYYt) { if (lin > 1e-3) { in(r.c[0], sp.wx - 2e-5 * cond / sw - 1e-3, sp.wx + 2e-5 * cond / sw + 1e-3, what, 0); in(r.c[1], sp.wy - 2e-5 * cond / sw - 1e-3, sp.wy + 2e-5 * cond / sw + 1e-3, what, 1); } }
		else { double tl = 1e-3 * cond + (sp.g.dec_border > 0 ? 0.05 : 0); in(r.c[0], clampd(L - tl, 0, 100), clampd(L + tl, 0, 100), what, 0); if (rgb[0] == 1) in(r.c[0], 100 - 1e-3 * cond, 100, what, 0); }
		s.nt = x > 0;
	}
}
PROPERTY("C08", c08, 250000, 5000000, "half: each of the 12 direct CIE formulas on colours inside and outside the RGB gamut and around the linear/power switches, under predefined and random RGB spaces, against double-precision formulas; a quarter: every pair with a CIE side checked step by step along its route; a quarter: neutral colours and white; non-trivial: not all-zero, a route of two or more steps, a neutral that is not black");

// ---- C10 ----
static void c10(Src& s) {
	int pair = (int)s.strat(NT * NT), a = pair / NT, b = pair % NT;
	DefGen g = s.chance(1, 3) ? g_def(s) : DefGen{preset_def(0), "sRGB"}; Space sp = space_of(g.d);
	Val v = is_device(a) ? (s.chance(1, 5) ? g_full(s, a, g.d) : g_color(s, a, g.d)) : g_cie(s, a, g.d, sp); Color* c = make(v); v = snap(c);
	s.note("%s to %s in %s", show(v).c_str(), TNAME[b], g.name.c_str());
	std::string w = fmt("%s to %s in %s", show(v).c_str(), TNAME[b], g.name.c_str()); const char* what = w.c_str();
	if (convert(c, (int)color_type::UNDEFINED) != nullptr) fail("converting %s to an undefined type gives a colour", show(v).c_str());
	Color* r = convert(c, b); Color* q = to_generic(c, b);
	if (!r || !q) fail("%s: no colour", what);
	if (a == b) {
		if (r != c || q != c) fail("%s: not the colour itself", what);
		if (!(snap(c) == v)) fail("%s: changed to %s", what, show(c).c_str());
		s.nt = true; return;
	}
	if (r == c || q == c || r == q) fail("%s: not a fresh colour", what);
	check_valid(r, what);
	Val x = snap(r), y = snap(q);
	if (x.t != b || y.t != b) fail("%s: type is %d and %d", what, x.t, y.t);
	if (x.d != v.d) fail("%s: RGB space not kept", what);
	if (!(x == y)) fail("%s: %s by type tag, %s by name", what, show(x).c_str(), show(y).c_str());
	if (!(snap(c) == v)) fail("%s: source changed to %s", what, show(c).c_str());
	if (is_true(b) && !is_true(a)) rounded_alpha(x, v.a, what); else if (!(fabs(x.a - v.a) <= 2e-6)) fail("%s: alpha becomes %.9g", what, x.a);
	composed(sp, v, b, x);
	s.nt = true; s.tag(is_device(a) ? is_device(b) ? "device to device" : "device to CIE" : is_device(b) ? "CIE to device" : "CIE to CIE");
}
PROPERTY("C10", c10, 250000, 5000000, "all 225 ordered pairs of types in turn with random colours, alphas and RGB spaces, both entry points, the undefined type, and the same conversion in separate steps; every pair is non-trivial");

// ---- C09 ----
// A reference walk along a list of types; false if a type on the way cannot hold the colour (its range cuts it off).
// Hues between 359 and 360 do not fit either, and rounding may push a hue of zero there: noise is how far (in RGB).
static bool walk(const Space& sp, DV v, const std::vector<int>& via, double noise) {
	for (int t : via) {
		auto r = route(v.t, t);
		for (size_t i = 1; i < r.size(); ++i) {
			DV u = v; V3 x{{v.c[0], v.c[1], v.c[2]}}, y; int k = v.t * 100 + r[i]; bool lim = true;
			switch (k) {
			case RGBD * 100 + XYZt: y = rgb_to_xyz(sp, x); break;
			case XYZt * 100 + LABt: y = xyz_to_lab(sp, x); break;
			case XYZt * 100 + LUVt: if (sum3(x) > 0 && (sum3(x) < 1e-6 || x[1] < 0.005 * sum3(x))) return false; y = xyz_to_luv(sp, x); break;
			case LABt * 100 + LCHAB: case LUVt * 100 + LCHUV: y = ab_to_lch(x); break;
			default: lim = false;
			}
			if (lim) {
				for (int j = 0; j < 3; ++j) { double sl = 1e-7 * (r[i] == XYZt ? sum3(y) : 1); bool hue = hue_index(r[i]) == j;
					if (hue ? y[1] > 1e-3 && (y[j] > 359 || y[j] * y[1] < 0.5) : !(y[j] >= lo_of(r[i], j) - sl && y[j] <= hi_of(r[i], j) + 1e-4)) return false; }
				v = dv(r[i], y[0], y[1], y[2], u.a, u.d); limit(v);
			}
			else v = ref_convert(sp, v, r[i]);
			if (is_hsx(v.t)) { double ch = chroma_of(v.t, v.c); if (ch > 1e-7 && ((359 - v.c[0]) * ch / 60 < noise + 1e-6 || v.c[0] * ch / 60 < noise)) return false; }
			if (v.t == XYYt && (v.c[1] < 0.005 || (v.c[2] > 0 && v.c[2] < 1e-6))) return false; // luminance does not determine such a colour
			if (v.t == LUVt && v.c[0] > 0 && singular(sp, {{v.c[0], v.c[1], v.c[2]}})) return false;
		}
	}
	return true;
}
// interval each deep RGB channel may end up in after float errors of k conversions in linear light
// (true if one of them lies where the curve switches formulas: the published constants leave a step there)
static bool channel_hull(const Space& sp, const V3& rgb, double k, V3& lo, V3& hi) {
	bool at_switch = false;
	V3 lin = lin_of(sp, rgb), X = mul(sp.m, lin); double n = sum3(X);
	for (int i = 0; i < 3; ++i) {
		double g = 0; for (int j = 0; j < 3; ++j) g += fabs(sp.mi[i][j]);
		double d = k * (1.2e-5 * g * n + 1e-6 * lin[i] + 2e-8 * g * std::max(1.0, sp.white[1])); // Lab is linear near black, with an absolute error relative to the white
		Iv q = around(sp.g.enc, clamp1(lin[i] - d), clamp1(lin[i] + d));
		// continuous curves only up to the published constants; the switch may be crossed either way
		double j = sp.g.enc_border > 0 && fabs(lin[i] - sp.g.enc_border) < d + 1e-2 * sp.g.enc_border ? 5e-4 : 0; if (j > 0) at_switch = true;
		lo[i] = std::min(rgb[i], clamp1(q.lo)) - 4e-6 * k - j; hi[i] = std::max(rgb[i], clamp1(q.hi)) + 4e-6 * k + j;
	}
	return at_switch;
}
static void c09(Src& s) {
	int mode = (int)s.strat(3);
	DefGen g = g_def(s); Space sp = space_of(g.d);
	static const int mid[] = {CMYKt, HSIt, HSVt, HSLt, HCYt, XYZt, XYYt, LUVt, LABt, LCHAB, LCHUV, RGBD, RGBT};
	std::vector<int> via; int hops = s.range(1, 2);
	for (int i = 0; i < hops; ++i) via.push_back(mid[s.draw(mode == 2 ? 12 : 11)]);
	bool cie = false; for (int t : via) cie = cie || !is_device(t);
	if (mode < 2) { // deep (0) and 8-bit (1) RGB
		V3 rgb = g_rgb(s); float a = g_alpha(s); if (mode == 1) { for (auto& x : rgb) x = floor(x * 255 + 0.5); a = floorf(a * 255 + 0.5f) / 255.f; }
		int t = mode ? RGBT : RGBD; Val v = to_val(dv(t, rgb[0], rgb[1], rgb[2], a, g.d)); Color* c = make(v); v = snap(c);
		std::string w = show(v); for (int m : via) w += std::string(" to ") + TNAME[m]; w += " and back in " + g.name; s.note("%s", w.c_str());
		s.tag(mode ? "8-bit" : "deep"); s.tag(std::string("via ") + TNAME[via[0]] + (hops > 1 ? std::string(" ") + TNAME[via[1]] : ""));
		V3 x = dev_to_rgb(t, dv(v).c); DV start = dv(RGBD, x[0], x[1], x[2], v.a, g.d);
		V3 lo, hi; if (cie) channel_hull(sp, x, hops + 1, lo, hi); else for (int i = 0; i < 3; ++i) { lo[i] = x[i] - 4e-6 * hops; hi[i] = x[i] + 4e-6 * hops; }
		double eps = 0; for (int i = 0; i < 3; ++i) eps = std::max(eps, hi[i] - lo[i]);
		bool fits = walk(sp, start, via, hops == 1 ? 0 : eps) && !(x[0] > x[1] && x[0] > x[2] && x[1] != x[2] && fabs(x[1] - x[2]) < 1e-6);
		Color* q = c; for (int m : via) { q = convert(q, m); check_valid(q, w.c_str()); } q = convert(q, t); check_valid(q, w.c_str()); Val r = snap(q);
		if (!fits) { s.tag("outside a type on the way"); return; }
		if (r.t != t || r.d != v.d) fail("%s: ends as %s", w.c_str(), show(r).c_str());
		if (!(fabs(r.a - v.a) <= 2e-6)) fail("%s: alpha becomes %.9g", w.c_str(), r.a);
		for (int i = 0; i < 3; ++i) {
			if (mode == 0) { if (!(r.c[i] >= lo[i] && r.c[i] <= hi[i])) fail("%s: channel %d becomes %.9g (allowed %.9g..%.9g)", w.c_str(), i, r.c[i], lo[i], hi[i]); }
			else if (255 * (hi[i] - x[i]) < 0.49 && 255 * (x[i] - lo[i]) < 0.49) { if (r.c[i] != v.c[i]) fail("%s: channel %d becomes %.9g", w.c_str(), i, r.c[i]); }
			else { s.tag("8-bit channel below float accuracy"); if (!(r.c[i] >= 255 * lo[i] - 0.5 && r.c[i] <= 255 * hi[i] + 0.5)) fail("%s: channel %d becomes %.9g (allowed %.9g..%.9g)", w.c_str(), i, r.c[i], 255 * lo[i], 255 * hi[i]); }
		}
		s.nt = x[0] != x[1] || x[1] != x[2];
		return;
	}
	int t = mid[s.draw(11)]; V3 rgb; Val v = g_in_gamut(s, t, g.d, &rgb); Color* c = make(v); v = snap(c);
	std::string w = show(v); for (int m : via) w += std::string(" to ") + TNAME[m]; w += " and back in " + g.name; s.note("%s", w.c_str()); s.tag(std::string("from ") + TNAME[t]);
	V3 lo, hi; bool at_switch = channel_hull(sp, rgb, hops + 1, lo, hi);
	double eps = 0; for (int i = 0; i < 3; ++i) eps = std::max(eps, hi[i] - lo[i]);
	std::vector<int> there = via; there.push_back(t);
	bool fits = walk(sp, dv(RGBD, rgb[0], rgb[1], rgb[2], v.a, g.d), {t}, 0) && walk(sp, dv(v), there, eps);
	Color* q = c; for (int m : via) { q = convert(q, m); check_valid(q, w.c_str()); } q = convert(q, t); check_valid(q, w.c_str()); Val r = snap(q);
	if (!fits) { s.tag("outside a type on the way"); return; }
	if (r.t != t || r.d != v.d) fail("%s: ends as %s", w.c_str(), show(r).c_str());
	if (!(fabs(r.a - v.a) <= 2e-6)) fail("%s: alpha becomes %.9g", w.c_str(), r.a);
	// back in RGB, read off by the reference, the colour must be where it was; and its components too as far as they are defined
	DV back = ref_convert(sp, dv(r), RGBD);
	for (int i = 0; i < 3; ++i) if (!(back.c[i] >= lo[i] && back.c[i] <= hi[i])) fail("%s: becomes %s, channel %d of its colour %.9g (allowed %.9g..%.9g)", w.c_str(), show(r).c_str(), i, back.c[i], lo[i], hi[i]);
	double lab = 0.05 * (hops + 1); std::string why; double y = rgb_to_xyz(sp, rgb)[1];
	if (is_device(t) ? !near_val(r, dv(v), cie ? 2 * eps : 1e-5 * hops, why) : at_switch ? false : t == XYZt ? !near_val(r, dv(v), 2e-4, why) : t == XYYt ? y > 0.01 && !near_val(r, dv(v), 5e-3, why) : !near_val(r, dv(v), lab, why)) fail("%s: becomes %s: %s", w.c_str(), show(r).c_str(), why.c_str());
	s.nt = rgb[0] != rgb[1] || rgb[1] != rgb[2];
}
PROPERTY("C09", c09, 250000, 5000000, "a third each: deep RGB colours, 8-bit RGB colours and RGB images in another type, over one or two other types and back, under predefined and random RGB spaces; the accuracy demanded is that of float arithmetic carried through the gamma curve; colours a type on the way cannot hold are counted and only checked for validity; non-trivial: channels differ");
