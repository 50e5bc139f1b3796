#include "gen.h"
#include <cmath>
#include <limits>
#include <cstring>

static float ulps(float v, int n) { for (; n > 0; --n) v = nextafterf(v, 2); for (; n < 0; ++n) v = nextafterf(v, -1); return v; }
static float fix1(float v) { return v < 0 ? 0.f : v > 1 ? 1.f : v; }
float g_unit(Src& s) {
	static const float nice[] = {0.f, 1.f, 0.5f, 0.25f, 0.75f, 1.f / 3, 2.f / 3, 0.1f, 0.2f, 0.3f, 0.4f, 0.6f, 0.7f, 0.8f, 0.9f, 0.04045f, 0.0031308f, 0.081f, 0.018053968f, 0.031248f, 0.001953f, 0.008856452f, 0.0088560f, 0.125f, 0.375f, 0.625f, 0.875f};
	const uint32_t N = sizeof nice / sizeof *nice;
	switch (s.draw(16)) {
	case 0: case 1: case 2: case 3: return nice[s.draw(N)];
	case 4: case 5: case 6: return s.draw(256) / 255.f;
	case 7: case 8: return s.draw(1001) / 1000.f;
	case 9: case 10: case 11: return s.draw(1u << 24) / 16777215.f;
	case 12: { static const float t[] = {1e-3f, 1e-4f, 1e-5f, 1e-6f, 1e-7f, 1e-9f, 1e-20f, 1e-38f}; return t[s.draw(8)]; }
	case 13: { static const float t[] = {1e-1f, 1e-2f, 1e-3f, 1e-4f, 1e-5f, 1e-6f, 6e-8f}; return 1.f - t[s.draw(7)]; }
	case 14: { float v = nice[s.draw(N)]; int k = s.range(1, 8); return fix1(ulps(v, s.flip() ? k : -k)); }
	default: { float v = nice[s.draw(N)], e = s.draw(1000) * 1e-5f; return fix1(s.flip() ? v + e : v - e); }
	}
}
float g_wild(Src& s) {
	static const float big[] = {1.f, -1.f, 2.f, -2.f, 1e10f, -1e10f, 3e38f, -3e38f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::quiet_NaN(), -0.f, 1e-45f, -1e-45f};
	switch (s.draw(10)) {
	case 0: case 1: return g_unit(s);
	case 2: return big[s.draw(sizeof big / sizeof *big)];
	case 3: return g_unit(s) * 255.f;
	case 4: return g_unit(s) * 200.f - 100.f;
	case 5: return g_unit(s) * 1440.f - 720.f;
	case 6: { static const float b[] = {0, 1, 100, 128, 255, 359, 360, -100, -128, -1, 720, -360, 65535}; float v = b[s.draw(13)]; int k = s.range(-3, 3); while (k > 0) { v = nextafterf(v, 1e9f); --k; } while (k < 0) { v = nextafterf(v, -1e9f); ++k; } return v; }
	case 7: return -g_unit(s);
	case 8: return 1.f + g_unit(s);
	default: { uint32_t b = s.draw(0xffffffffu); float f; memcpy(&f, &b, 4); return f; }
	}
}
float g_hue(Src& s) {
	float h;
	switch (s.draw(6)) {
	case 0: h = 60.f * s.draw(6); break;
	case 1: h = 30.f * s.draw(12); break;
	case 2: h = (float)s.draw(360); break;
	case 3: h = s.draw(1u << 24) / 16777215.f * 359.f; break;
	case 4: { static const float e[] = {1e-4f, 1e-3f, 1e-2f, 0.1f, 1.f, -1e-4f, -1e-3f, -1e-2f, -0.1f, -1.f}; h = 30.f * s.draw(13) + e[s.draw(10)]; break; }
	default: h = s.draw(3590) / 10.f; break;
	}
	return h < 0 ? 0.f : h > 359 ? 359.f : h;
}
float g_alpha(Src& s) {
	switch (s.draw(4)) {
	case 0: return 1.f;
	case 1: { static const float a[] = {0.f, 0.5f, 1.f, 0.25f}; return a[s.draw(4)]; }
	case 2: return s.draw(256) / 255.f;
	default: return g_unit(s);
	}
}
V3 g_rgb(Src& s) {
	float a, b, c;
	switch (s.draw(8)) {
	case 0: a = s.draw(256) / 255.f; b = s.draw(256) / 255.f; c = s.draw(256) / 255.f; break;
	case 1: a = g_unit(s); b = g_unit(s); c = g_unit(s); break;
	case 2: a = b = c = g_unit(s); break;
	case 3: { a = b = g_unit(s); c = g_unit(s); uint32_t p = s.draw(3); if (p == 1) std::swap(b, c); if (p == 2) std::swap(a, c); break; }
	case 4: { a = g_unit(s); float e = s.draw(100) * 1e-5f; b = fix1(a + e); c = fix1(a - s.draw(100) * 1e-5f); break; }
	case 5: { uint32_t k = s.draw(8); a = k & 1 ? 1.f : 0.f; b = k & 2 ? 1.f : 0.f; c = k & 4 ? 1.f : 0.f; break; }
	case 6: { static const float q[] = {0.f, 0.25f, 0.5f, 0.75f, 1.f}; a = q[s.draw(5)]; b = q[s.draw(5)]; c = q[s.draw(5)]; break; }
	default: a = s.draw(1u << 24) / 16777215.f; b = s.draw(1u << 24) / 16777215.f; c = s.draw(1u << 24) / 16777215.f; break;
	}
	return {{a, b, c}};
}
const int N_PRESET_DEF = 20;
const char* const PRESET_DEF_NAME[] = {"sRGB", "adobeRGB", "pal_secam", "americaNTSC", "oldNTSC", "appleRGB", "dci_p3", "uhdtv", "adobeWideGammutRGB", "rommRGB", "bestRGB", "betaRGB", "bruceRGB", "colorMatchRGB", "donRGB4", "ektaSpacePS5", "ProPhotoRGB", "SMPTE_C_RGB", "cieRGB", "cieXYZ"};
Curve preset_curve(int i) {
	switch (i) {
	case 0: return curve_srgb();
	case 1: case 8: return curve_power(2.19921875);
	case 2: return curve_power(2.8);
	case 5: case 13: case 16: return curve_power(1.8);
	case 6: return curve_power(2.6);
	case 7: return curve_uhdtv();
	case 9: return curve_romm();
	default: return curve_power(2.2);
	}
}
RgbDef* preset_def(int i) {
	cs::rgb_color_space_definition_presets p;
	RgbDef* d = nullptr;
	switch (i) {
	case 0: d = p.sRGB(); break;
	case 1: d = p.adobeRGB(); break;
	case 2: d = p.pal_secam(); break;
	case 3: d = p.americaNTSC(); break;
	case 4: d = p.oldNTSC(); break;
	case 5: d = p.appleRGB(); break;
	case 6: d = p.dci_p3(); break;
	case 7: d = p.uhdtv(); break;
	case 8: d = p.adobeWideGammutRGB(); break;
	case 9: d = p.rommRGB(); break;
	case 10: d = p.bestRGB(); break;
	case 11: d = p.betaRGB(); break;
	case 12: d = p.bruceRGB(); break;
	case 13: d = p.colorMatchRGB(); break;
	case 14: d = p.donRGB4(); break;
	case 15: d = p.ektaSpacePS5(); break;
	case 16: d = p.ProPhotoRGB(); break;
	case 17: d = p.SMPTE_C_RGB(); break;
	case 18: d = p.cieRGB(); break;
	case 19: d = p.cieXYZ(); break;
	}
	register_curve(d, preset_curve(i));
	return d;
}
static cs::white_point* g_white1(Src& s) {
	static cs::white_point_presets p;
	switch (s.draw(3)) {
	case 0: switch (s.draw(10)) {
		case 0: return p.D65_2Degree();
		case 1: return p.D50_2Degree();
		case 2: return p.D65_10Degree();
		case 3: return p.A_2Degree();
		case 4: return p.C_2Degree();
		case 5: return p.E_2Degree();
		case 6: return p.D75_2Degree();
		case 7: return p.F2_2Degree();
		case 8: return p.B_2Degree();
		default: return p.F11_10Degree();
		}
	case 1: { float x = 0.28f + s.draw(1800) * 1e-4f, y = 0.30f + s.draw(1200) * 1e-4f; return new cs::white_point(x, y); }
	default: { float x = 0.28f + s.draw(1800) * 1e-4f, y = 0.30f + s.draw(1200) * 1e-4f; return new cs::white_point(x / y, 1.f, (1.f - x - y) / y); }
	}
}
cs::white_point* g_white(Src& s) {
	cs::white_point* w = g_white1(s);
	if (!s.chance(1, 5)) return w;
	// the luminance of a white is 1 or 100 by custom, any other scale by right; XYZ ends at 100
	static const float L[] = {50.f, 2.f, 0.5f, 10.f, 40.f, 0.1f};
	float k = L[s.draw(6)];
	return new cs::white_point(k * w->get_tristimulus_x(), k * w->get_tristimulus_y(), k * w->get_tristimulus_z());
}
static cs::gamma* lib_curve(const Curve& c) {
	auto enc = c.enc, dec = c.dec;
	std::vector<cs::gamma_part*> g{new cs::gamma_part([enc](float x) { return (float)enc(x); })}, ig{new cs::gamma_part([dec](float x) { return (float)dec(x); })};
	return new cs::gamma(g, ig);
}
// a continuous curve of 2 to 6 straight parts, each a gamma part of its own; parts are handed over in any order
static cs::gamma* lib_polyline(Src& s, Curve& c, std::string& name) {
	int n = 2 + (int)s.draw(5); std::vector<double> x{0}, y{0}; double sx = 0, sy = 0;
	for (int i = 0; i < n; ++i) { sx += 1 + s.draw(8); sy += (1 + s.draw(8)) * (i == 0 ? 2 : 1); x.push_back(sx); y.push_back(sy); }
	for (auto& v : x) v /= sx; for (auto& v : y) v /= sy;
	auto at = [](std::vector<double> x, std::vector<double> y) { return [x, y](double v) { size_t i = 1; while (i + 1 < x.size() && v > x[i]) ++i; return y[i - 1] + (v - x[i - 1]) * ((y[i] - y[i - 1]) / (x[i] - x[i - 1])); }; };
	c.enc = at(x, y); c.dec = at(y, x);
	std::vector<cs::gamma_part*> g, ig;
	for (int i = 1; i <= n; ++i) {
		double x0 = x[i - 1], y0 = y[i - 1], k = (y[i] - y0) / (x[i] - x0); name += fmt(" (%.4g,%.4g)", x[i], y[i]);
		g.push_back(new cs::gamma_part([=](float v) { return (float)(y0 + (v - x0) * k); }, (float)x[i])); ig.push_back(new cs::gamma_part([=](float v) { return (float)(x0 + (v - y0) / k); }, (float)y[i]));
	}
	for (int i = n; i-- > 1;) { std::swap(g[i], g[s.draw(i + 1)]); std::swap(ig[i], ig[s.draw(i + 1)]); }
	if (s.flip()) return new cs::gamma(g, ig);
	auto* r = new cs::gamma(); for (auto* p : g) r->add_gamma_curve_part(p); for (auto* p : ig) r->add_inverse_gamma_curve_part(p); return r;
}
static cs::gamma* lib_power(float p) {
	std::vector<cs::gamma_part*> g{new cs::gamma_part([p](float x) { return powf(x, 1.f / p); })}, ig{new cs::gamma_part([p](float x) { return powf(x, p); })};
	return new cs::gamma(g, ig);
}
DefGen g_def(Src& s) {
	uint32_t k = s.draw(10);
	if (k < 4) return {preset_def(0), "sRGB"};
	if (k < 7) { int i = (int)s.draw((uint32_t)N_PRESET_DEF); return {preset_def(i), PRESET_DEF_NAME[i]}; }
	float rx = 0.64f + (s.range(-900, 1100)) * 1e-4f, ry = 0.33f + s.range(-800, 300) * 1e-4f;
	float gx = 0.3f + s.range(-2000, 500) * 1e-4f, gy = 0.6f + s.range(-500, 2000) * 1e-4f;
	float bx = 0.15f + s.range(-500, 500) * 1e-4f, by = 0.06f + s.range(-400, 600) * 1e-4f;
	cs::white_point* w = g_white(s);
	Curve c; cs::gamma* g; std::string gn;
	switch (s.draw(5)) {
	case 0: { float p = 1.f + s.draw(21) * 0.1f; c = curve_power(p); g = lib_power(p); gn = fmt("power %g", p); break; }
	case 1: { double e = 1.5 + s.draw(16) * 0.1, o = 0.02 + s.draw(11) * 0.01; c = curve_piecewise(e, o); g = lib_curve(c); gn = fmt("piecewise %g/%g", e, o); break; }
	case 2: c = curve_identity(); g = new cs::gamma(); gn = "identity"; break;
	case 3: gn = "polyline"; g = lib_polyline(s, c, gn); break;
	default: { cs::gamma_presets gp; switch (s.draw(3)) { case 0: c = curve_srgb(); g = gp.sRGB(); break; case 1: c = curve_romm(); g = gp.gammaRomm(); break; default: c = curve_uhdtv(); g = gp.gammaUHDTV(); break; } gn = "preset curve"; break; }
	}
	RgbDef* d = new RgbDef(rx, ry, gx, gy, bx, by, w, g);
	register_curve(d, c);
	// a white outside the triangle of the primaries gives negative scales: not a usable RGB space
	Space sp = space_of(d);
	for (int i = 0; i < 3; ++i) if (!(sp.m[1][i] > 1e-4)) discard();
	return {d, fmt("custom(%g,%g %g,%g %g,%g white %g,%g %s)", rx, ry, gx, gy, bx, by, sp.wx, sp.wy, gn.c_str())};
}
// a white that shares something with the given one: its chromaticity, its luminance or nearly all of it
cs::white_point* g_near_white(Src& s, cs::white_point* w) {
	float X = w->get_tristimulus_x(), Y = w->get_tristimulus_y(), Z = w->get_tristimulus_z(), x = w->get_chromaticity_x(), y = w->get_chromaticity_y();
	static const float f[] = {0.5f, 2.f, 0.25f, 1.00001f, 0.9f, 100.f}; float k = f[s.draw(6)];
	switch (s.draw(8)) {
	case 0: return new cs::white_point(X * k, Y * k, Z * k, x, y);
	case 1: return new cs::white_point(X * k, Y * k, Z * k);
	case 2: return new cs::white_point(X + 0.05f, Y, Z);
	case 3: return new cs::white_point(X, Y, Z + 0.05f);
	case 4: return new cs::white_point(x, y);
	case 5: return new cs::white_point(X, Y + 0.05f, Z);
	case 6: return new cs::white_point(X, Y, Z * 0.5f);
	default: return new cs::white_point(*w);
	}
}
RgbDef* g_related(Src& s, RgbDef* d) {
	Space sp = space_of(d); Curve c = sp.g; cs::gamma* g = d->get_gamma_curve(); cs::white_point* w = d->get_white_point();
	float q[6] = {d->get_red_x(), d->get_red_y(), d->get_green_x(), d->get_green_y(), d->get_blue_x(), d->get_blue_y()};
	switch (s.draw(4)) {
	case 0: case 1: w = g_near_white(s, w); break;
	case 2: { static const float p[] = {1.8f, 2.2f}; float k = p[s.draw(2)]; c = curve_power(k); g = lib_power(k); break; }
	default: q[s.draw(6)] += 0.004f; break;
	}
	RgbDef* e = new RgbDef(q[0], q[1], q[2], q[3], q[4], q[5], w, g); register_curve(e, c); Space n = space_of(e);
	for (int i = 0; i < 3; ++i) if (!(n.m[1][i] > 1e-4)) return new RgbDef(*d);
	return e;
}
DefGen g_other(Src& s, const DefGen& g) { if (s.flip()) return g_def(s); return {g_related(s, g.d), "nearly " + std::string(g.name)}; }
static float g_comp(Src& s, int t, int i) {
	if (is_hsx(t) && i == 0) return g_hue(s);
	if ((t == LCHAB || t == LCHUV) && i == 2) return g_hue(s);
	if (is_true(t)) return s.chance(1, 4) ? g_unit(s) * 255.f : (float)s.draw(256);
	float lo = (float)lo_of(t, i), hi = (float)hi_of(t, i);
	if (t == XYZt) { // XYZ of real colours is about 0..1, the type allows 0..100
		if (s.chance(1, 6)) return g_unit(s) * 100.f; return g_unit(s) * 1.2f; }
	if (t == XYYt) { if (i < 2) { if (s.chance(1, 8)) return g_unit(s) * 3.f; return g_unit(s); } return s.chance(1, 6) ? g_unit(s) * 100.f : g_unit(s); }
	float v = lo + g_unit(s) * (hi - lo);
	return v < lo ? lo : v > hi ? hi : v;
}
Val g_full(Src& s, int t, RgbDef* d) {
	Val v; v.t = t; v.d = d;
	for (int i = 0; i < NCOMP[t]; ++i) v.c.push_back(g_comp(s, t, i));
	if (s.chance(1, 12)) { // several components at the ends or in the middle of their range, or at the same place of it, at once
		bool same = s.chance(1, 3); float u = s.draw(17) / 16.f;
		for (int i = 0; i < NCOMP[t]; ++i) {
			float lo = (float)lo_of(t, i), hi = (float)hi_of(t, i); if (!same && s.flip()) continue;
			if (same) v.c[i] = lo + u * (hi - lo); else { uint32_t k = s.draw(4); v.c[i] = k == 0 ? hi : k == 1 && lo < 0 ? lo : 0.f; }
			if (is_true(t)) v.c[i] = std::round(v.c[i]);
		}
	}
	v.a = g_alpha(s);
	return v;
}
Val g_in_gamut(Src& s, int t, RgbDef* d, V3* out) {
	V3 rgb = g_rgb(s);
	if (out) *out = rgb;
	float a = g_alpha(s);
	DV v = dv(RGBD, rgb[0], rgb[1], rgb[2], a, d);
	if (t == RGBT) v = dv(RGBT, rgb[0] * 255, rgb[1] * 255, rgb[2] * 255, a, d);
	else if (t == GT) v = dv(GT, (rgb[0] + rgb[1] + rgb[2]) * 85, 0, 0, a, d);
	else v = ref_convert(space_of(d), v, t);
	return to_val(v);
}
Val g_color(Src& s, int t, RgbDef* d) {
	if (t == RGBD) { V3 c = g_rgb(s); Val v; v.t = t; v.d = d; v.c = {(float)c[0], (float)c[1], (float)c[2]}; v.a = g_alpha(s); return v; }
	if (t == GT || t == GD) return g_full(s, t, d);
	if (t == RGBT) { Val v; if (s.chance(1, 3)) return g_full(s, t, d); V3 c = g_rgb(s); v.t = t; v.d = d; for (double x : c) v.c.push_back((float)(s.flip() ? x * 255 : floor(x * 255 + 0.5))); v.a = g_alpha(s); return v; }
	if (is_device(t)) return s.chance(1, 2) ? g_in_gamut(s, t, d) : g_full(s, t, d);
	return s.chance(1, 4) ? g_full(s, t, d) : g_in_gamut(s, t, d);
}
