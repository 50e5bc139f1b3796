// C19 colour combinations, C20 adjustments
#include "gen.h"
#include "ops.h"
#include <cmath>

static double cie_eps(int t) { return t == XYZt ? 2e-5 : t == XYYt ? 1e-3 : is_device(t) ? 4e-6 : 5e-3; }
// the colour must be hsl with hue, saturation and lightness as given, seen in its own type
static void expect_hsl(const Space& sp, Color* r, const Val& base, double h, double s, double l, const char* what) {
	DV e = dv(HSLt, h, s, l, base.a, base.d);
	expect_image(sp, snap(r), e, {{3e-4, 2e-7, 2e-7, 0}}, base.t == HSLt ? 1e-7 : cie_eps(base.t), what);
}
static int g_count(Src& s) {
	switch (s.draw(6)) {
	case 0: return s.range(2, 6);
	case 1: { static const int n[] = {2, 3, 4, 5, 6, 7, 8, 9, 12, 359, 360, 180}; return n[s.draw(12)]; }
	case 2: return s.range(2, 40);
	case 3: return s.range(300, 360);
	default: return s.range(2, 16);
	}
}
static float g_angle(Src& s) { // (0,120]
	switch (s.draw(4)) {
	case 0: { static const float a[] = {30.f, 120.f, 60.f, 15.f, 90.f, 1.f, 119.99999f, 0.5f}; return a[s.draw(8)]; }
	case 1: return (float)s.range(1, 120);
	case 2: return s.range(1, 1200) / 10.f;
	default: { float a = g_unit(s) * 120.f; return a > 1e-3f ? a : 1e-3f; }
	}
}
static void c19(Src& s) {
	int k = (int)s.strat(N_COMB), t = (int)s.strat(NT);
	DefGen g = s.chance(1, 3) ? g_def(s) : DefGen{preset_def(0), "sRGB"}; Space sp = space_of(g.d);
	Val v = s.chance(1, 4) ? g_full(s, t, g.d) : g_color(s, t, g.d);
	if (is_hsx(t) && s.chance(1, 4)) v.c[0] = s.flip() ? 359.f : (float)s.range(340, 359);
	Color* c = make(v); v = snap(c);
	int n = k == K_TRIPLET ? 3 : k == K_QUARTET ? 4 : k == K_QUINTET ? 5 : k == K_COMPLEMENT ? 1 : k == K_ANALOGOUS || k == K_SPLIT ? 3 : g_count(s), mode = 0; float x = 0;
	if (k == K_MONO) { n = s.chance(1, 10) ? 1 : s.chance(1, 20) ? s.range(13, 150) : s.range(1, 12); mode = (int)s.draw(3); switch (s.draw(4)) { case 0: { static const float a[] = {0.1f, 0.f, 1.f, 0.5f, 0.25f}; x = a[s.draw(5)]; break; } case 1: x = s.draw(101) / 100.f; break; default: x = g_unit(s); } if (n > 12 && s.chance(3, 4)) x *= 0.05f; }
	if (k == K_ANALOGOUS || k == K_SPLIT) x = g_angle(s);
	std::string w = fmt("%s of %s", COMB_NAME[k], show(v).c_str()) + (k == K_COMBINATION ? fmt(", %d colours", n) : k == K_ANALOGOUS || k == K_SPLIT ? fmt(", %.9g degrees", x) : k == K_MONO ? fmt(", mode %d, amount %.9g, %d colours", mode, x, n) : "") + " in " + g.name;
	const char* what = w.c_str(); s.note("%s", what);
	Colors r = op_comb(k, c, n, x, mode);
	if ((int)r.size() != n) fail("%s: %zu colours", what, r.size());
	if (!(snap(c) == v)) fail("%s: the base colour changed to %s", what, show(c).c_str());
	int at = k == K_COMPLEMENT ? -1 : k == K_ANALOGOUS || k == K_SPLIT ? 1 : 0;
	for (int i = 0; i < n; ++i) {
		check_valid(r[i], what);
		Val u = snap(r[i]); if (u.t != t || u.d != v.d) fail("%s: colour %d is %s", what, i, show(u).c_str());
		if (i == at) { if (!(u == v)) fail("%s: colour %d is %s instead of the base colour", what, i, show(u).c_str()); continue; }
		if (r[i] == c) fail("%s: colour %d is the base object", what, i);
		for (int j = 0; j < i; ++j) if (r[j] == r[i]) fail("%s: colours %d and %d are one object", what, j, i);
	}
	Color* from = k == K_SPLIT ? op_comb(K_COMPLEMENT, c, 0, 0, 0)[0] : c;
	Val h = snap(convert(from, HSLt));
	for (int i = 0; i < n; ++i) {
		if (i == at) continue;
		std::string wi = w + fmt(", colour %d", i);
		if (k == K_MONO) { Val p = snap(convert(r[i - 1], HSLt)); double q = 1 - (double)x; expect_hsl(sp, r[i], v, p.c[0], mode != 1 ? p.c[1] * q : p.c[1], mode != 0 ? p.c[2] * q : p.c[2], wi.c_str()); }
		else if (k == K_ANALOGOUS || k == K_SPLIT) expect_hsl(sp, r[i], v, h.c[0] + (i == 0 ? -(double)x : (double)x), h.c[1], h.c[2], wi.c_str());
		else if (k == K_COMPLEMENT) expect_hsl(sp, r[0], v, h.c[0] + 180.0, h.c[1], h.c[2], wi.c_str());
		else expect_hsl(sp, r[i], v, h.c[0] + i * 360.0 / n, h.c[1], h.c[2], wi.c_str());
	}
	s.tag(COMB_NAME[k]); s.tag(TNAME[t]); if (h.c[0] > 0 && k != K_MONO) s.tag("hue runs past 360");
	s.nt = h.c[1] > 1e-3 && h.c[2] > 1e-3 && h.c[2] < 0.999 && (k != K_MONO || (n > 1 && x > 0));
}
PROPERTY("C19", c19, 100000, 2000000, "all schemes and all 15 base types in turn, 2 to 360 colours, angles in (0,120], monochromatic modes, amounts in [0,1] and 1 to 150 colours, colours anywhere in the types' ranges, hues near 360; every colour against the rotated or scaled HSL value in double precision; non-trivial: the base has a hue, and the scheme changes something");

static float g_percent(Src& s) {
	switch (s.draw(6)) {
	case 0: { static const float p[] = {0.5f, 0.f, -0.5f, 1.f, -1.f, 2.f, -2.f, 0.1f, -0.1f}; return p[s.draw(9)]; }
	case 1: return s.range(-100, 100) / 100.f;
	case 2: return s.range(-50, 50) / 10.f;
	case 3: { static const float p[] = {1e-6f, -1e-6f, 1e-20f, -1e-45f, 1e6f, -1e6f, 1e30f, -0.99999994f, -1.0000001f, -0.f, 255.f}; return p[s.draw(11)]; }
	case 4: return g_unit(s);
	default: return -g_unit(s);
	}
}
static void c20(Src& s) {
	int k = (int)s.strat(N_ADJ), t = (int)s.strat(NT); bool inplace = s.strat(2);
	DefGen g = s.chance(1, 3) ? g_def(s) : DefGen{preset_def(0), "sRGB"}; Space sp = space_of(g.d);
	Val v = s.chance(1, 5) ? g_full(s, t, g.d) : g_color(s, t, g.d); Color* c = make(v); v = snap(c); float p = g_percent(s);
	std::string w = fmt("%s%s(%s, %.9g) in %s", ADJ_NAME[k], inplace ? " in place" : "", show(v).c_str(), p, g.name.c_str()); const char* what = w.c_str(); s.note("%s", what);
	Color* r = op_adj(k, c, p);
	if (!(snap(c) == v)) fail("%s: the colour itself changed to %s", what, show(c).c_str());
	check_valid(r, what); Val a = snap(r);
	if (a.t != t || a.d != v.d) fail("%s: result is %s", what, show(a).c_str());
	if (p != 0 && r == c) fail("%s: not a fresh colour", what);
	Val first = a;
	if (inplace) {
		Color* q = s.flip() ? make(v) : copy_typed(c); Val u = snap(q); op_adj_inplace(k, q, p);
		if ((int)q->get_color_type() != t) fail("%s: becomes %s", what, show(q).c_str());
		if (!(snap(c) == v)) fail("%s: another colour changed", what);
		if (!(u == v)) fail("%s: the copy differs", what);
		check_valid(q, what); a = snap(q); if (a.d != v.d) fail("%s: RGB space changed", what); // judged below as the returned one was
	}
	bool rgb = k == A_SAT_RGB || k == A_LUM_RGB; s.tag(ADJ_NAME[k]); s.tag(p == 0 ? "zero" : p < -1 ? "below -1" : p < 0 ? "negative" : p <= 1 ? "up to 1" : "above 1");
	for (int i = 0; i < 2; ++i) if (p == 0 && !rgb) { if (!((i ? first : a) == v)) fail("%s: gives %s", what, show(i ? first : a).c_str()); if (i) return; }
	int base = rgb ? RGBD : HSLt; Val x = snap(convert(c, base)); DV e = dv(x); std::array<double, 4> tol{{0, 0, 0, 0}};
	if (k == A_SAT_RGB) { double L = lum601({{x.c[0], x.c[1], x.c[2]}}); for (int i = 0; i < 3; ++i) { e.c[i] = x.c[i] - p * (L - x.c[i]); tol[i] = 3e-7 * (x.c[i] + fabs(p) * (L + x.c[i])) + 1e-37; } }
	else if (k == A_LUM_RGB) for (int i = 0; i < 3; ++i) { e.c[i] = x.c[i] * (1.0 + p); tol[i] = 3e-7 * x.c[i] * (1 + fabs(p)) + 1e-37; }
	else { int i = k == A_SAT_HSL ? 1 : 2; e.c[i] = x.c[i] * (1.0 + p); tol[i] = 3e-7 * x.c[i] * (1 + fabs(p)) + 1e-37; }
	for (int i = 0; i < 3; ++i) if (!(base == HSLt && i == 0)) { double lo = clamp1(e.c[i] - tol[i]), hi = clamp1(e.c[i] + tol[i]); e.c[i] = (lo + hi) / 2; tol[i] = (hi - lo) / 2 + 6e-8; }
	expect_image(sp, a, e, tol, t == base ? 1e-7 : cie_eps(t), what);
	if (inplace) expect_image(sp, first, e, tol, t == base ? 1e-7 : cie_eps(t), (w + ", returned").c_str());
	s.nt = p != 0 && (x.c[0] > 0 || x.c[1] > 0 || x.c[2] > 0);
}
PROPERTY("C20", c20, 200000, 4000000, "the four adjustments, 15 types and the returning and in-place forms in turn, percentages zero, small, negative, below -1 and huge, colours anywhere in the types' ranges; against the formula in double precision in the space it is defined in; both forms; non-trivial: percentage not zero, colour not black");
