// C17 distance formulas, C18 distance laws
#include "gen.h"
#include "ops.h"
#include <cmath>

static const double PI = 3.14159265358979323846;
static double rad(double d) { return d * PI / 180; }
struct Iv { double lo, hi; void add(double l, double h) { lo = std::min(lo, l); hi = std::max(hi, h); } };
static int calc_type(int k) { return k == D_EU_LUV || k == D_EU_LUV2 ? LUVt : k >= D_76 ? LABt : RGBD; }

// CIEDE2000. The library truncates hues to whole degrees and has the wrong sign in the exponent of the rotation angle
// (known finding). The value has to be the published one or the one of the formula with these two mistakes; where the
// wrong exponent makes the angle so large that its sine is arbitrary, any value within the size of the rotation term
// passes, and where the exponent overflows the value is undefined.
struct D2000 { std::vector<Iv> sq; bool may_be_nan; double published; };
static D2000 cie00(const V3& p, const V3& q, const DistArg& a) {
	double C1 = hypot(p[1], p[2]), C2 = hypot(q[1], q[2]), c7 = pow((C1 + C2) / 2, 7), G = sqrt(c7 / (c7 + pow(25., 7)));
	double a1 = p[1] * (1 + (1 - G) / 2), a2 = q[1] * (1 + (1 - G) / 2), c1 = hypot(a1, p[2]), c2 = hypot(a2, q[2]), cm = (c1 + c2) / 2, L = (p[0] + q[0]) / 2 - 50;
	double A = (q[0] - p[0]) / (a.kL * (1 + a.k2 * L * L / sqrt(20 + L * L))), B = (c2 - c1) / (a.kC * (1 + a.k1 * cm));
	auto hues = [](double b, double x, bool whole) {
		double h = atan2(b, x) * 180 / PI; std::vector<double> v{whole ? trunc(h) : h};
		double f = fabs(h - floor(h + 0.5)); if (whole && f < 1e-2) { v.push_back(floor(h + 0.5)); v.push_back(floor(h + 0.5) - 1); v.push_back(floor(h + 0.5) + 1); }
		for (auto& y : v) if (y < 0) y += 360;
		return v;
	};
	D2000 r{{}, false, 0}; bool first = true;
	for (int whole = 0; whole < 2; ++whole) {
		Iv good{1e300, -1e300}, bad = good;
		for (double h1 : hues(p[2], a1, whole)) for (double h2 : hues(q[2], a2, whole)) for (int side = 0; side < 2; ++side) {
			double d = fabs(h1 - h2); bool wrap = d > 180; if (side) { if (fabs(d - 180) > 1e-2) continue; wrap = !wrap; }
			double H = wrap ? (h1 + h2 + 360) / 2 : (h1 + h2) / 2;
			double T = 1 - 0.17 * cos(rad(H - 30)) + 0.24 * cos(rad(2 * H)) + 0.32 * cos(rad(3 * H + 6)) - 0.2 * cos(rad(4 * H - 63));
			double dh = h2 - h1; if (wrap) dh += dh > 0 ? -360 : 360;
			double D = 2 * sqrt(c1 * c2) * sin(rad(dh / 2)) / (a.kH * (1 + a.k2 * cm * T)), s = A * A + B * B + D * D, w = 2 * G * B * D;
			double Hp = H >= 360 ? H - 360 : H, e = 1e-5 * fabs(w), x = pow((H - 275) / 25, 2);
			for (double hp : {Hp, H}) { double v = s - sin(rad(60 * exp(-pow((hp - 275) / 25, 2)))) * w; good.add(v - e, v + e); if (first) { r.published = sqrt(v); first = false; } }
			double ang = x < 80 ? 60 * exp(x) : 1e300, da = rad(ang) * 2e-5 * (1 + x);
			if (da > 1) bad.add(s - fabs(w) - e, s + fabs(w) + e); else { double v = s - sin(rad(ang)) * w, m = da * fabs(w) + e; bad.add(v - m, v + m); }
			r.may_be_nan = r.may_be_nan || H < 46;
		}
		r.sq.push_back(good); r.sq.push_back(bad);
	}
	return r;
}
// intervals the squared distance must lie in one of, up to relative float error
static std::vector<Iv> formula(int k, const V3& p, const V3& q, const DistArg& a, bool& may_be_nan) {
	V3 d{{p[0] - q[0], p[1] - q[1], p[2] - q[2]}}; double e2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
	may_be_nan = false;
	switch (k) {
	case D_WEIGHTED: { double r = (p[0] + q[0]) / 2 * 255; double v = (2 + r / 256) * d[0] * d[0] + 4 * d[1] * d[1] + (2 + (255 - r) / 256) * d[2] * d[2]; return {{v, v}}; }
	case D_94: case D_CMC: {
		double C1 = hypot(p[1], p[2]), C2 = hypot(q[1], q[2]), dC = C1 - C2, ab = d[1] * d[1] + d[2] * d[2], h2 = std::max(0.0, ab - dC * dC);
		double herr = 2e-6 * ab + 1e-6 * fabs(dC) * (C1 + C2) + pow(3e-7 * (C1 + C2), 2), cerr = 3e-7 * (C1 + C2);
		if (k == D_94) {
			double l = d[0] / a.kL, c = dC / (a.kC * (1 + a.k1 * C1)), n = pow(a.kH * (1 + a.k2 * C1), 2), ce = cerr / a.kC, ct = 2 * fabs(c) * ce + ce * ce;
			return {{l * l + c * c + std::max(0.0, h2 - herr) / n - ct, l * l + c * c + (h2 + herr) / n + ct}};
		}
		double H0 = atan2(p[2], p[1]) * 180 / PI; if (H0 < 0) H0 += 360;
		Iv r{1e300, -1e300};
		for (double H : {H0, H0 - 2e-4, H0 + 2e-4}) {
			double F = sqrt(pow(C1, 4) / (pow(C1, 4) + 1900)), T = H > 164 && H <= 345 ? 0.56 + fabs(0.2 * cos(rad(H + 168))) : 0.36 + fabs(0.4 * cos(rad(H + 35)));
			double sL = p[0] < 16 ? 0.511 : 0.040975 * p[0] / (1 + 0.01765 * p[0]), sC = 0.0638 * C1 / (1 + 0.0131 * C1) + 0.638, sH = sC * (F * T + 1 - F);
			double l = d[0] / (a.l * sL), c = dC / (a.c * sC), ce = cerr / (a.c * sC), ct = 2 * fabs(c) * ce + ce * ce;
			r.add(l * l + c * c + std::max(0.0, h2 - herr) / (sH * sH) - ct, l * l + c * c + (h2 + herr) / (sH * sH) + ct);
		}
		return {r}; }
	case D_00: { D2000 r = cie00(p, q, a); may_be_nan = r.may_be_nan; return r.sq; }
	default: return {{e2, e2}};
	}
}
static V3 v3(const Val& v) { return {{v.c[0], v.c[1], v.c[2]}}; }
static DistArg g_arg(Src& s) {
	DistArg a; if (s.chance(1, 2)) return a;
	a.defaults = false; auto pos = [&](float d) { return s.chance(1, 3) ? d : 0.25f * (1 + s.draw(12)); };
	a.kL = pos(1); a.kC = pos(1); a.kH = pos(1); a.l = pos(2); a.c = pos(1);
	a.k1 = s.chance(1, 3) ? 0.048f : s.draw(101) / 1000.f; a.k2 = s.chance(1, 3) ? 0.014f : s.draw(51) / 1000.f;
	return a;
}
static std::string show_arg(int k, const DistArg& a) {
	if (a.defaults || k < D_94) return "";
	return k == D_CMC ? fmt(", l=%g c=%g", a.l, a.c) : fmt(", kL=%g k1=%g k2=%g kC=%g kH=%g", a.kL, a.k1, a.k2, a.kC, a.kH);
}
// two colours: independent, of the calculation type, or close together
static void g_two(Src& s, int k, RgbDef* d1, RgbDef* d2, Val& x, Val& y) {
	int ct = calc_type(k);
	switch (s.draw(6)) {
	case 4: { // the same numbers in another order or with other signs: equal sums, chromas, extremes
		x = s.chance(1, 3) ? g_full(s, ct, d1) : g_color(s, ct, d1); if (s.flip()) for (auto& c : x.c) c = roundf(c * (ct == RGBD ? 16 : 1)) / (ct == RGBD ? 16 : 1);
		y = x; y.d = d2; y.a = g_alpha(s);
		if (ct == RGBD) { int i = (int)s.draw(4); if (i < 3) std::swap(y.c[i], y.c[(i + 1) % 3]); else for (float& c : y.c) c = 1.f - c; }
		else switch (s.draw(5)) { case 0: std::swap(y.c[1], y.c[2]); break; case 1: y.c[1] = -y.c[1]; break; case 2: y.c[2] = -y.c[2]; break; case 3: y.c[1] = -y.c[1]; y.c[2] = -y.c[2]; break; default: y.c[0] = 100.f - y.c[0]; }
		break; }
	case 0: x = g_color(s, ct, d1); y = g_color(s, ct, d2); break;
	case 1: x = g_color(s, g_type(s), d1); y = g_color(s, g_type(s), d2); break;
	case 2: { x = g_color(s, ct, d1); y = x; y.d = d2; float e = powf(10.f, -(float)s.range(0, 5)); for (int i = 0; i < 3; ++i) y.c[i] += e * s.range(-10, 10) / 10.f * (ct == RGBD ? 1 : 10); break; }
	case 3: { // the same numbers as another type, or in another space
		x = s.flip() ? g_color(s, g_type(s), d1) : g_full(s, g_type(s), d1); y = x; y.d = d2; y.a = g_alpha(s);
		std::vector<int> ts; for (int t = 0; t < NT; ++t) if (NCOMP[t] == NCOMP[x.t]) ts.push_back(t);
		y.t = ts[s.draw((uint32_t)ts.size())];
		for (int i = 0; i < NCOMP[y.t]; ++i) { float lo = std::max((float)lo_of(y.t, i), (float)lo_of(x.t, i)), hi = std::min((float)hi_of(y.t, i), (float)hi_of(x.t, i)); x.c[i] = y.c[i] = x.c[i] < lo ? lo : x.c[i] > hi ? hi : x.c[i]; }
		if (s.flip()) std::swap(x, y);
		break; }
	default: { // Lab: given hues and chroma, also greys
		if (ct != LABt) { x = g_full(s, ct, d1); y = g_full(s, ct, d2); break; }
		auto one = [&](RgbDef* d) { Val v; v.t = LABt; v.d = d; v.a = 1; double h = rad(s.flip() ? g_hue(s) : s.draw(3600) / 10.0), c = s.chance(1, 8) ? 0 : s.draw(1200) / 10.0; v.c = {s.chance(1, 8) ? 16.f : s.draw(1001) / 10.f, (float)(c * cos(h)), (float)(c * sin(h))}; return v; };
		x = one(d1); y = one(d2);
		if (s.chance(1, 3)) { double h = atan2(x.c[2], x.c[1]) + rad(180 + s.range(-50, 50) / 10.0), c = hypot(y.c[1], y.c[2]); y.c[1] = (float)(c * cos(h)); y.c[2] = (float)(c * sin(h)); } } // nearly opposite hues
	}
}
static void c17(Src& s) {
	int k = (int)s.strat(N_DIST);
	DefGen g = s.chance(1, 4) ? g_def(s) : DefGen{preset_def(0), "sRGB"}, g2 = s.chance(1, 8) ? g_other(s, g) : g;
	Val x, y; g_two(s, k, g.d, g2.d, x, y); DistArg a = g_arg(s);
	Color *p = make(x), *q = make(y); x = snap(p); y = snap(q);
	std::string w = fmt("%s(%s, %s%s) in %s", DIST_NAME[k], show(x).c_str(), show(y).c_str(), show_arg(k, a).c_str(), g.name.c_str()) + (g2.d != g.d ? " and " + g2.name : ""); const char* what = w.c_str(); s.note("%s", what);
	int ct = calc_type(k); V3 u = v3(snap(convert(p, ct))), v = v3(snap(convert(q, ct)));
	double d = op_dist(k, p, q, a); bool nan_ok; std::vector<Iv> es = formula(k, u, v, a, nan_ok);
	s.tag(DIST_NAME[k]); if (!a.defaults) s.tag("parameters"); s.nt = !(u == v);
	if (std::isnan(d) && nan_ok) { s.tag("known: CIEDE2000 undefined for reddish hues"); return; }
	if (!std::isfinite(d) || d < 0) fail("%s is %.9g", what, d);
	bool squared = k == D_EU_RGB2 || k == D_EU_LUV2; double unit = ct == RGBD ? 1 : 100;
	double tol = 2e-6 * unit, act = squared ? sqrt(d) : d, wide = 0; bool in = false; std::string want;
	for (const Iv& e : es) {
		double lo = sqrt(std::max(0.0, e.lo)) * (1 - 4e-6) - tol, hi = sqrt(std::max(0.0, e.hi)) * (1 + 4e-6) + tol;
		in = in || (act >= lo && act <= hi); wide = std::max(wide, (hi - lo) / (hi + lo)); want += fmt("%s%.9g..%.9g", want.empty() ? "" : " or ", squared ? lo * lo : lo, squared ? hi * hi : hi);
	}
	if (!in) fail("%s is %.9g, expected %s", what, d, want.c_str());
	if (k == D_00) s.tag(wide > 0.05 ? "CIEDE2000 with a loose bound" : "CIEDE2000 within 10 %");
}
PROPERTY("C17", c17, 250000, 8000000, "all distance functions in turn on pairs of colours of any types and RGB spaces (also two different ones), independent, close together, with the same numbers in another order or with other signs, and at chosen Lab hues and lightnesses, with default and random parameters; against the published formula in double precision on the converted colours; non-trivial: the two colours differ");

static void c18(Src& s) {
	int k = (int)s.strat(N_DIST), ct = calc_type(k), mode = (int)s.strat(5);
	DefGen g = s.chance(1, 4) ? g_def(s) : DefGen{preset_def(0), "sRGB"}, g2 = s.chance(1, 6) ? g_other(s, g) : g; DistArg a = g_arg(s); const char* name = DIST_NAME[k];
	double unit = ct == RGBD ? 1 : 100; s.tag(name);
	auto dist = [&](Color* p, Color* q) { double d = op_dist(k, p, q, a); if (k == D_EU_RGB2 || k == D_EU_LUV2) { if (!(d >= 0)) fail("%s(%s, %s) is %.9g", name, show(p).c_str(), show(q).c_str(), d); d = sqrt(d); } return d; };
	auto excused = [&](Color* p, Color* q) { if (k != D_00) return false; bool n; formula(k, v3(snap(convert(p, LABt))), v3(snap(convert(q, LABt))), a, n); return n; };
	auto valid = [&](Color* p, Color* q, double d) { if (std::isnan(d) && excused(p, q)) { s.tag("known: CIEDE2000 undefined for reddish hues"); return false; } if (!std::isfinite(d) || d < 0) fail("%s(%s, %s%s) is %.9g", name, show(p).c_str(), show(q).c_str(), show_arg(k, a).c_str(), d); return true; };
	auto same = [&](double d, double e, const char* rel, Color* p, Color* q) { if (!(fabs(d - e) <= 4e-6 * (fabs(d) + unit))) fail("%s(%s, %s%s): %.9g, but %s %.9g", name, show(p).c_str(), show(q).c_str(), show_arg(k, a).c_str(), d, rel, e); };
	Val x, y; g_two(s, k, g.d, g2.d, x, y); Color *p = make(x), *q = make(y); x = snap(p); y = snap(q);
	s.note("%s of %s and %s in %s%s", name, show(p).c_str(), show(q).c_str(), g.name.c_str(), (g2.d != g.d ? " and " + g2.name : "").c_str()); if (g2.d != g.d) s.tag("two RGB spaces");
	double d = dist(p, q); bool ok = valid(p, q, d);
	s.nt = !(x == y);
	if (mode == 0) { // identity
		s.tag("identity");
		if (dist(p, p) != 0) fail("%s of %s to itself is %.9g", name, show(p).c_str(), dist(p, p));
		Color* c = s.flip() ? make(x) : copy_typed(p); double z = dist(p, c); if (valid(p, c, z) && !(z <= 1e-6 * unit)) fail("%s of %s to its copy is %.9g", name, show(p).c_str(), z);
	}
	else if (mode == 1) { // alpha
		s.tag("alpha");
		Val u = x, v = y; u.a = g_alpha(s); v.a = g_alpha(s); double e = dist(make(u), make(v));
		if (ok) same(d, e, "with other alphas", p, q); else valid(p, q, e);
	}
	else if (mode == 2) { // only the colours in the space of the formula matter
		s.tag("type");
		Color *u = s.flip() ? p : convert(p, ct), *v = convert(q, ct); double e = dist(u, v);
		if (ok && valid(u, v, e)) same(d, e, fmt("with the colours converted to %s", TNAME[ct]).c_str(), p, q);
	}
	else if (mode == 3) { // symmetry
		s.tag("symmetry");
		double e = dist(q, p);
		if (valid(q, p, e) && ok && k != D_94 && k != D_CMC) same(d, e, "the other way round", p, q);
	}
	else if (k == D_94 || k == D_CMC || k == D_00 || k == D_WEIGHTED) { // at least: differing colours are apart
		s.tag("distinct");
		V3 u = v3(snap(convert(p, ct))), v = v3(snap(convert(q, ct))); double far = 0; for (int i = 0; i < 3; ++i) far = std::max(far, fabs(u[i] - v[i]));
		if (k != D_00 && ok && far > 1e-2 * unit && !(d > 0)) fail("%s(%s, %s) is %.9g", name, show(p).c_str(), show(q).c_str(), d);
	}
	else if (s.flip()) { // triangle inequality
		s.tag("triangle");
		Val z = g_color(s, s.flip() ? ct : g_type(s), g.d); Color* r = make(z); double e = dist(p, r), f = dist(r, q);
		if (!(d <= (e + f) * (1 + 1e-5) + 1e-5 * unit)) fail("%s(%s, %s) is %.9g, over %s only %.9g + %.9g", name, show(p).c_str(), show(q).c_str(), d, show(r).c_str(), e, f);
	}
	else { // along a line
		s.tag("line");
		Val u = snap(convert(p, ct)), v = snap(convert(q, ct)); Color* from = make(u); double last = 0, len = 0, whole = dist(from, make(v)); int n = s.range(2, 6), prev = 0;
		for (int i = 1; i <= n; ++i) {
			Val m = u; for (int j = 0; j < 3; ++j) m.c[j] = (float)(u.c[j] + ((double)v.c[j] - u.c[j]) * i / n);
			double e = dist(from, make(m)); len = whole * i / n;
			if (e < last - 1e-5 * unit) fail("%s from %s shrinks from %.9g to %.9g on the way to %s", name, show(u).c_str(), last, e, show(v).c_str());
			if (!(fabs(e - len) <= 2e-5 * unit)) fail("%s from %s: %d/%d of the way to %s is %.9g of %.9g", name, show(u).c_str(), i, n, show(v).c_str(), e, whole);
			last = e; prev = i;
		}
	}
}
PROPERTY("C18", c18, 200000, 6000000, "all distance functions in turn with a law each: distance to itself and copies, other alphas, colours converted beforehand, exchanged arguments, triangle inequality with a third colour and growth along a line; pairs as for C17, also of two RGB spaces; non-trivial: the two colours differ");

static bool rotation(std::string& detail) {
	RgbDef* d = preset_def(0); Val y{LABt, {97.14f, -21.55f, 94.48f}, 1, d}, r{LABt, {53.24f, 80.09f, 67.2f}, 1, d};
	double act = op_dist(D_00, make(y), make(r), DistArg()), pub = cie00(v3(y), v3(r), DistArg()).published;
	detail = fmt("CIEDE2000 of yellow %s and red %s is %.4g, the published formula gives %.4g (sign of the rotation exponent, hues truncated)", show(y).c_str(), show(r).c_str(), act, pub);
	return fabs(act - pub) > 0.01;
}
static bool undefined17(std::string& detail) {
	RgbDef* d = preset_def(0); Val x{LABt, {53.24f, 80.09f, 20.f}, 1, d}, y{LABt, {50.f, 70.f, 15.f}, 1, d};
	double act = op_dist(D_00, make(x), make(y), DistArg()); detail = fmt("CIEDE2000 of %s and %s is %g (overflow of the rotation exponent for reddish hues)", show(x).c_str(), show(y).c_str(), act);
	return std::isnan(act);
}
static bool undefined18(std::string& detail) {
	RgbDef* d = preset_def(0); Val x{LABt, {53.24f, 80.09f, 20.f}, 1, d};
	double act = op_dist(D_00, make(x), make(x), DistArg()); detail = fmt("CIEDE2000 of %s to a copy of it is %g (overflow of the rotation exponent for reddish hues)", show(x).c_str(), act);
	return std::isnan(act);
}
KNOWN("C17", "ciede2000-rotation-sign", rotation);
KNOWN("C17", "ciede2000-overflow", undefined17);
KNOWN("C18", "ciede2000-overflow", undefined18);
