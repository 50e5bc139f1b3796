#include "ref.h"
#include "core.h"
#include <cmath>
#include <map>

static const double PI = 3.14159265358979323846;
double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
V3 mul(const M3& m, const V3& v) {
	V3 r; for (int i = 0; i < 3; ++i) r[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; return r;
}
M3 inverse(const M3& a) {
	M3 r;
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
		int i1 = (j + 1) % 3, i2 = (j + 2) % 3, j1 = (i + 1) % 3, j2 = (i + 2) % 3;
		r[i][j] = a[i1][j1] * a[i2][j2] - a[i1][j2] * a[i2][j1];
	}
	double det = a[0][0] * r[0][0] + a[0][1] * r[1][0] + a[0][2] * r[2][0];
	for (auto& row : r) for (auto& x : row) x /= det;
	return r;
}
Curve curve_power(double g) {
	Curve c; c.enc = [g](double x) { return x <= 0 ? 0 : pow(x, 1 / g); }; c.dec = [g](double x) { return x <= 0 ? 0 : pow(x, g); }; return c;
}
Curve curve_identity() { Curve c; c.enc = c.dec = [](double x) { return x; }; return c; }
Curve curve_srgb() {
	Curve c; c.enc_border = 0.0031308; c.dec_border = 0.04045;
	c.enc = [](double x) { return x <= 0.0031308 ? 12.92 * x : 1.055 * pow(x, 1 / 2.4) - 0.055; };
	c.dec = [](double x) { return x <= 0.04045 ? x / 12.92 : pow((x + 0.055) / 1.055, 2.4); };
	return c;
}
Curve curve_romm() {
	Curve c; c.enc_border = 0.001953; c.dec_border = 0.031248;
	c.enc = [](double x) { return x <= 0.001953 ? 16 * x : pow(x, 1 / 1.8); };
	c.dec = [](double x) { return x <= 0.031248 ? x / 16 : pow(x, 1.8); };
	return c;
}
Curve curve_uhdtv() {
	Curve c; c.enc_border = 0.018053968510807; c.dec_border = 0.081;
	c.enc = [](double x) { return x <= 0.018053968510807 ? 4.5 * x : 1.099 * pow(x, 0.45) - 0.099; };
	c.dec = [](double x) { return x <= 0.081 ? x / 4.5 : pow((x + 0.099) / 1.099, 1 / 0.45); };
	return c;
}
Curve curve_piecewise(double g, double k) {
	Curve c; double x0 = k / (g - 1), l0 = pow((x0 + k) / (1 + k), g), slope = x0 / l0;
	c.enc_border = l0; c.dec_border = x0;
	c.enc = [=](double x) { return x <= l0 ? slope * x : (1 + k) * pow(x, 1 / g) - k; };
	c.dec = [=](double x) { return x <= x0 ? x / slope : pow((x + k) / (1 + k), g); };
	return c;
}
static std::map<RgbDef*, Curve>& curves() { static std::map<RgbDef*, Curve> m; return m; }
void register_curve(RgbDef* d, const Curve& c) { curves()[d] = c; }
Space space_of(RgbDef* d) {
	Space s;
	auto r = d->get_red_chromaticity_coordinate(), g = d->get_green_chromaticity_coordinate(), b = d->get_blue_chromaticity_coordinate();
	auto* w = d->get_white_point();
	s.white = {{(double)w->get_tristimulus_x(), (double)w->get_tristimulus_y(), (double)w->get_tristimulus_z()}};
	s.wx = w->get_chromaticity_x(); s.wy = w->get_chromaticity_y();
	M3 p;
	double xy[3][2] = {{r[0], r[1]}, {g[0], g[1]}, {b[0], b[1]}};
	for (int i = 0; i < 3; ++i) { p[0][i] = xy[i][0]; p[1][i] = xy[i][1]; p[2][i] = 1 - xy[i][0] - xy[i][1]; }
	V3 sc = mul(inverse(p), s.white);
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s.m[i][j] = p[i][j] * sc[j];
	s.mi = inverse(s.m);
	auto it = curves().find(d);
	if (it != curves().end()) s.g = it->second;
	else {
		cs::gamma* gm = d->get_gamma_curve();
		s.g.enc = [gm](double x) { return (double)gm->gamma_correction((float)x); };
		s.g.dec = [gm](double x) { return (double)gm->inverse_gamma_correction((float)x); };
	}
	return s;
}
std::string show(const DV& v) {
	std::string s = std::string(TNAME[v.t]) + "[";
	for (int i = 0; i < NCOMP[v.t]; ++i) s += fmt("%s%.9g", i ? "," : "", v.c[i]);
	return s + fmt(" a=%.9g]", v.a);
}
DV dv(const Val& v) { DV r; r.t = v.t; for (size_t i = 0; i < v.c.size(); ++i) r.c[i] = v.c[i]; r.a = v.a; r.d = v.d; return r; }
DV dv(int t, double x, double y, double z, double a, RgbDef* d) { DV r; r.t = t; r.c = {{x, y, z, 0}}; r.a = a; r.d = d; return r; }
void limit(DV& v) {
	for (int i = 0; i < NCOMP[v.t]; ++i) v.c[i] = clampd(v.c[i], lo_of(v.t, i), hi_of(v.t, i));
	v.a = clamp1(v.a);
}
Val to_val(const DV& x) {
	DV l = x; limit(l); Val v; v.t = x.t; v.a = (float)l.a; v.d = x.d;
	for (int i = 0; i < NCOMP[x.t]; ++i) v.c.push_back((float)l.c[i]);
	return v;
}
double rgb_hue(const V3& c) {
	double mx = std::max(c[0], std::max(c[1], c[2])), mn = std::min(c[0], std::min(c[1], c[2])), d = mx - mn;
	if (d <= 0) return 0;
	double h = mx == c[0] ? (c[1] - c[2]) / d : mx == c[1] ? 2 + (c[2] - c[0]) / d : 4 + (c[0] - c[1]) / d;
	h *= 60; if (h < 0) h += 360; return h >= 360 ? h - 360 : h;
}
// pure hue, chroma 1: max component 1, min component 0
static V3 pure(double hue) {
	double h = hue / 60, x = 1 - fabs(fmod(h, 2) - 1);
	if (h < 1) return {{1, x, 0}};
	if (h < 2) return {{x, 1, 0}};
	if (h < 3) return {{0, 1, x}};
	if (h < 4) return {{0, x, 1}};
	if (h < 5) return {{x, 0, 1}};
	return {{1, 0, x}};
}
static double luma709(const V3& c) { return 0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2]; }
double lum601(const V3& c) { return 0.299 * c[0] + 0.587 * c[1] + 0.114 * c[2]; }
V3 dev_to_rgb(int t, const std::array<double, 4>& c) {
	V3 r{{0, 0, 0}};
	switch (t) {
	case RGBT: r = {{c[0] / 255, c[1] / 255, c[2] / 255}}; break;
	case RGBD: r = {{c[0], c[1], c[2]}}; break;
	case GT: r = {{c[0] / 255, c[0] / 255, c[0] / 255}}; break;
	case GD: r = {{c[0], c[0], c[0]}}; break;
	case CMYKt: for (int i = 0; i < 3; ++i) r[i] = (1 - c[i]) * (1 - c[3]); break;
	case HSIt: { V3 p = pure(c[0]); double sum = p[0] + p[1] + p[2]; // intensity = mean, min = I(1-S)
		for (int i = 0; i < 3; ++i) r[i] = c[2] * (1 - c[1]) + 3 * c[2] * c[1] * p[i] / sum; break; }
	case HSVt: { V3 p = pure(c[0]); for (int i = 0; i < 3; ++i) r[i] = c[2] * (1 - c[1] * (1 - p[i])); break; }
	case HSLt: { V3 p = pure(c[0]); double ch = c[1] * (1 - fabs(2 * c[2] - 1)); for (int i = 0; i < 3; ++i) r[i] = c[2] + ch * (p[i] - 0.5); break; }
	case HCYt: { V3 p = pure(c[0]); double y = luma709(p); for (int i = 0; i < 3; ++i) r[i] = (p[i] - y) * c[1] + c[2]; break; }
	}
	for (auto& x : r) x = clamp1(x);
	return r;
}
DV rgb_to_dev(int t, const V3& c, double a, RgbDef* d) {
	double mx = std::max(c[0], std::max(c[1], c[2])), mn = std::min(c[0], std::min(c[1], c[2])), ch = mx - mn, avg = (c[0] + c[1] + c[2]) / 3;
	switch (t) {
	case RGBT: return dv(t, floor(c[0] * 255 + 0.5), floor(c[1] * 255 + 0.5), floor(c[2] * 255 + 0.5), floor(a * 255 + 0.5) / 255, d);
	case RGBD: return dv(t, c[0], c[1], c[2], a, d);
	case GT: return dv(t, (floor(c[0] * 255 + 0.5) + floor(c[1] * 255 + 0.5) + floor(c[2] * 255 + 0.5)) / 3, 0, 0, floor(a * 255 + 0.5) / 255, d);
	case GD: return dv(t, avg, 0, 0, a, d);
	case CMYKt: { DV r = dv(t, 0, 0, 0, a, d); r.c[3] = 1 - mx; if (mx > 0) for (int i = 0; i < 3; ++i) r.c[i] = 1 - c[i] / mx; return r; }
	case HSIt: return dv(t, rgb_hue(c), ch > 0 ? 1 - mn / avg : 0, avg, a, d);
	case HSVt: return dv(t, rgb_hue(c), ch > 0 ? ch / mx : 0, mx, a, d);
	case HSLt: return dv(t, rgb_hue(c), ch > 0 ? ch / (1 - fabs(mx + mn - 1)) : 0, (mx + mn) / 2, a, d);
	case HCYt: return dv(t, rgb_hue(c), ch, ch > 0 ? luma709(c) : mn, a, d);
	}
	return DV();
}
double chroma_of(int t, const std::array<double, 4>& c) {
	V3 r = dev_to_rgb(t, c);
	return std::max(r[0], std::max(r[1], r[2])) - std::min(r[0], std::min(r[1], r[2]));
}
V3 lin_of(const Space& s, const V3& rgb) { V3 l; for (int i = 0; i < 3; ++i) l[i] = clamp1(s.g.dec(rgb[i])); return l; }
V3 rgb_to_xyz(const Space& s, const V3& rgb) { return mul(s.m, lin_of(s, rgb)); }
V3 xyz_to_lin(const Space& s, const V3& xyz) { V3 l = mul(s.mi, xyz); for (auto& x : l) x = clamp1(x); return l; }
V3 xyz_to_rgb(const Space& s, const V3& xyz) { V3 l = xyz_to_lin(s, xyz); for (auto& x : l) x = clamp1(s.g.enc(x)); return l; }
V3 xyz_to_xyy(const Space& s, const V3& v) {
	double n = v[0] + v[1] + v[2];
	if (n == 0) return {{s.wx, s.wy, 0}};
	return {{v[0] / n, v[1] / n, v[1]}};
}
V3 xyy_to_xyz(const V3& v) {
	if (v[1] == 0) return {{0, 0, 0}};
	return {{v[0] * v[2] / v[1], v[2], (1 - v[0] - v[1]) * v[2] / v[1]}};
}
static const double EPS = 216.0 / 24389, KAPPA = 24389.0 / 27;
static double labf(double t) { return t > EPS ? cbrt(t) : (KAPPA * t + 16) / 116; }
static double labfi(double f) { double c = f * f * f; return c > EPS ? c : (116 * f - 16) / KAPPA; }
V3 xyz_to_lab(const Space& s, const V3& v) {
	double fx = labf(v[0] / s.white[0]), fy = labf(v[1] / s.white[1]), fz = labf(v[2] / s.white[2]);
	return {{116 * fy - 16, 500 * (fx - fy), 200 * (fy - fz)}};
}
V3 lab_to_xyz(const Space& s, const V3& v) {
	double fy = (v[0] + 16) / 116;
	return {{labfi(fy + v[1] / 500) * s.white[0], labfi(fy) * s.white[1], labfi(fy - v[2] / 200) * s.white[2]}};
}
static void uv(const V3& v, double& u, double& w) { double n = v[0] + 15 * v[1] + 3 * v[2]; u = n == 0 ? 0 : 4 * v[0] / n; w = n == 0 ? 0 : 9 * v[1] / n; }
V3 xyz_to_luv(const Space& s, const V3& v) {
	if (v[0] == 0 && v[1] == 0 && v[2] == 0) return {{0, 0, 0}};
	double y = v[1] / s.white[1], L = y > EPS ? 116 * cbrt(y) - 16 : KAPPA * y, u, w, u0, w0;
	uv(v, u, w); uv(s.white, u0, w0);
	return {{L, 13 * L * (u - u0), 13 * L * (w - w0)}};
}
V3 luv_to_xyz(const Space& s, const V3& v) {
	if (v[0] == 0) return {{0, 0, 0}};
	double u0, w0; uv(s.white, u0, w0);
	double u = v[1] / (13 * v[0]) + u0, w = v[2] / (13 * v[0]) + w0;
	double Y = s.white[1] * (v[0] > 8 ? pow((v[0] + 16) / 116, 3) : v[0] / KAPPA);
	return {{Y * 9 * u / (4 * w), Y, Y * (12 - 3 * u - 20 * w) / (4 * w)}};
}
V3 ab_to_lch(const V3& v) { double h = atan2(v[2], v[1]) * 180 / PI; if (h < 0) h += 360; return {{v[0], hypot(v[1], v[2]), h}}; }
V3 lch_to_ab(const V3& v) { return {{v[0], v[1] * cos(v[2] * PI / 180), v[1] * sin(v[2] * PI / 180)}}; }

static V3 v3(const DV& v) { return {{v.c[0], v.c[1], v.c[2]}}; }
static DV mk(int t, const V3& v, const DV& from) { DV r = dv(t, v[0], v[1], v[2], from.a, from.d); limit(r); return r; }
DV ref_convert(const Space& s, const DV& v, int to) {
	if (v.t == to) return v;
	if (is_device(v.t) && is_device(to)) {
		if (v.t == RGBT && to == GT) return dv(GT, (v.c[0] + v.c[1] + v.c[2]) / 3, 0, 0, v.a, v.d);
		if (v.t == GT && to == RGBT) return dv(RGBT, v.c[0], v.c[0], v.c[0], v.a, v.d);
		return rgb_to_dev(to, dev_to_rgb(v.t, v.c), v.a, v.d);
	}
	// to XYZ or to the partner first
	if (is_device(v.t)) { DV x = mk(XYZt, rgb_to_xyz(s, dev_to_rgb(v.t, v.c)), v); return to == XYZt ? x : ref_convert(s, x, to); }
	switch (v.t) {
	case XYZt:
		if (is_device(to)) return rgb_to_dev(to, xyz_to_rgb(s, v3(v)), v.a, v.d);
		if (to == XYYt) return mk(to, xyz_to_xyy(s, v3(v)), v);
		if (to == LUVt) return mk(to, xyz_to_luv(s, v3(v)), v);
		if (to == LABt) return mk(to, xyz_to_lab(s, v3(v)), v);
		if (to == LCHAB) return ref_convert(s, mk(LABt, xyz_to_lab(s, v3(v)), v), to);
		return ref_convert(s, mk(LUVt, xyz_to_luv(s, v3(v)), v), to);
	case XYYt: { DV x = mk(XYZt, xyy_to_xyz(v3(v)), v); return ref_convert(s, x, to); }
	case LUVt: if (to == LCHUV) return mk(to, ab_to_lch(v3(v)), v); return ref_convert(s, mk(XYZt, luv_to_xyz(s, v3(v)), v), to);
	case LABt: if (to == LCHAB) return mk(to, ab_to_lch(v3(v)), v); return ref_convert(s, mk(XYZt, lab_to_xyz(s, v3(v)), v), to);
	case LCHAB: { DV x = mk(LABt, lch_to_ab(v3(v)), v); return ref_convert(s, x, to); }
	case LCHUV: { DV x = mk(LUVt, lch_to_ab(v3(v)), v); return ref_convert(s, x, to); }
	}
	return v;
}

bool hue_close(double act, double exp, double tol) {
	if (tol >= 180) return true;
	double d = fabs(fmod(fabs(act - exp), 360)); if (d > 180) d = 360 - d;
	if (d <= tol) return true;
	if (exp >= 359 - 1e-9 && act <= tol) return true; // exp was limited from there
	if (act >= 359 - 1e-4) { // the exact hue may lie in (359,360), which the type limits to 359
		double lo = exp - tol, hi = exp + tol;
		if (hi >= 359 || lo <= 0) return lo <= 0 ? true : hi >= 359 && lo <= 360;
	}
	return false;
}
void near_tolerances(const DV& exp, double eps, double* tol) {
	int t = exp.t; const auto& c = exp.c;
	for (int i = 0; i < 4; ++i) tol[i] = eps;
	auto div = [](double x, double y) { return y <= x ? 1e9 : x / y; };
	switch (t) {
	case RGBT: case GT: for (int i = 0; i < 4; ++i) tol[i] = eps * 255; break;
	case CMYKt: for (int i = 0; i < 3; ++i) tol[i] = 2 * div(eps, 1 - c[3]); break;
	case HSIt: tol[1] = 4 * div(eps, c[2]); tol[0] = 120 * div(eps, chroma_of(t, c)) + 1e-4; break;
	case HSVt: tol[1] = 2 * div(eps, c[2]); tol[0] = 120 * div(eps, chroma_of(t, c)) + 1e-4; break;
	case HSLt: tol[1] = 3 * div(eps, 1 - fabs(2 * c[2] - 1)); tol[0] = 120 * div(eps, chroma_of(t, c)) + 1e-4; break;
	// an HCY triple need not lie in the RGB cube, so its own chroma is the weight of the hue
	case HCYt: tol[0] = 120 * div(eps, c[1]) + 1e-4; break;
	case XYZt: case XYYt: for (int i = 0; i < 3; ++i) tol[i] = std::max(eps, 4e-6 * fabs(c[i])); break; // whites of any luminance
	case LCHAB: case LCHUV: tol[2] = 60 * div(eps, c[1]) + 1e-4; break;
	}
	for (int i = 0; i < 4; ++i) if (!(tol[i] < 1e9)) tol[i] = 1e9; // also when the weight is undefined
}
bool near_val(const Val& act, const DV& exp, double eps, std::string& why, double ea) {
	int t = exp.t;
	if (act.t != t) { why = fmt("type %s instead of %s", act.t < NT ? TNAME[act.t] : "?", TNAME[t]); return false; }
	double tol[4]; near_tolerances(exp, eps, tol);
	const auto& c = exp.c;
	for (int i = 0; i < NCOMP[t]; ++i) {
		if (std::isnan(c[i])) continue;
		bool ok = i == hue_index(t) ? hue_close(act.c[i], c[i], tol[i]) : fabs(act.c[i] - clampd(c[i], lo_of(t, i), hi_of(t, i))) <= tol[i];
		if (!ok) { why = fmt("component %d is %.9g, expected %.9g (tolerance %.3g)", i, act.c[i], c[i], tol[i]); return false; }
	}
	if (!(fabs(act.a - exp.a) <= ea)) { why = fmt("alpha is %.9g, expected %.9g", act.a, exp.a); return false; }
	return true;
}
void expect_near(const Val& act, const DV& exp, double eps, const char* what, double ea) {
	std::string why;
	if (!near_val(act, exp, eps, why, ea)) fail("%s: got %s, expected %s: %s", what, show(act).c_str(), show(exp).c_str(), why.c_str());
}

void expect_image(const Space& sp, const Val& act, const DV& base, const std::array<double, 4>& tol, double eps, const char* what, double ea) {
	int t = act.t, n = NCOMP[base.t];
	if (act.d != base.d) fail("%s: got %s in another RGB space", what, show(act).c_str());
	bool rounded = is_true(t) && !is_true(base.t);
	if (rounded) { // alpha and channels are whole numbers
		double x = act.a * 255.0;
		if (!(fabs(x - floor(x + 0.5)) < 1e-3) || !(fabs(x - base.a * 255) <= 0.5 + 255 * ea)) fail("%s: got %s, expected alpha %.9g rounded to 8 bits", what, show(act).c_str(), base.a);
	}
	else if (!(fabs(act.a - base.a) <= ea)) fail("%s: got %s, expected alpha %.9g", what, show(act).c_str(), base.a);
	std::vector<DV> im; // the image of the base first
	double lo[4], hi[4], wide[4] = {0, 0, 0, 0};
	for (int k = 0; k <= 1 << n; ++k) {
		DV p = base;
		if (k) for (int i = 0; i < n; ++i) p.c[i] += (k - 1) >> i & 1 ? tol[i] : -tol[i];
		if (is_hsx(p.t)) { p.c[0] = fmod(p.c[0], 360); if (p.c[0] < 0) p.c[0] += 360; }
		limit(p);
		if (k && p.t == XYZt && t != XYZt) { double m = 4e-6 * (fabs(p.c[0]) + fabs(p.c[1]) + fabs(p.c[2])); for (int i = 0; i < 3; ++i) p.c[i] += (k - 1) >> i & 1 ? m : -m; } // float error of the RGB space's matrices
		if (!rounded) { im.push_back(ref_convert(sp, p, t)); continue; }
		DV r = ref_convert(sp, p, RGBD);
		for (int side = k ? -1 : 0; side <= (k ? 1 : 0); side += 2) {
			DV q; q.t = t; double sum = 0;
			for (int i = 0; i < 3; ++i) { q.c[i] = floor(clamp1(r.c[i] + side * eps) * 255 + 0.5); sum += q.c[i]; }
			if (t == GT) q.c[0] = sum / 3;
			im.push_back(q);
		}
	}
	for (int i = 0; i < NCOMP[t]; ++i) { lo[i] = 1e300; hi[i] = -1e300; for (auto& q : im) { if (std::isnan(q.c[i])) { lo[i] = -1e300; hi[i] = 1e300; } lo[i] = std::min(lo[i], q.c[i]); hi[i] = std::max(hi[i], q.c[i]); } }
	for (auto& q : im) { double w[4] = {1e-3, 1e-3, 1e-3, 1e-3}; if (!rounded) near_tolerances(q, eps, w); for (int i = 0; i < 4; ++i) wide[i] = std::max(wide[i], w[i]); }
	bool dark = false; if (t == XYYt) for (auto& q : im) dark = dark || q.c[2] < 1e-6; // chromaticity of almost nothing
	for (int i = 0; i < NCOMP[t]; ++i) {
		bool ok = false;
		if (dark && i < 2) ok = true;
		else if (i == hue_index(t)) {
			double spread = 0; for (auto& q : im) { double d = fabs(q.c[i] - im[0].c[i]); spread = std::max(spread, std::min(d, 360 - d)); }
			for (auto& q : im) ok = ok || hue_close(act.c[i], q.c[i], wide[i] + spread);
		}
		else { double m = wide[i] + (rounded ? 0 : (hi[i] - lo[i]) / 2); ok = act.c[i] >= clampd(lo[i] - m, lo_of(t, i), hi_of(t, i)) - 1e-6 * (1 + fabs(lo[i])) && act.c[i] <= clampd(hi[i] + m, lo_of(t, i), hi_of(t, i)) + 1e-6 * (1 + fabs(hi[i])); }
		if (rounded && t == RGBT && fabs(act.c[i] - floor(act.c[i] + 0.5)) > 1e-3) ok = false;
		if (!ok) fail("%s: got %s, expected the colour of %s: component %d is %.9g, expected %.9g..%.9g", what, show(act).c_str(), show(base).c_str(), i, act.c[i], lo[i] - wide[i], hi[i] + wide[i]);
	}
}
