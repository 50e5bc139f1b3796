// C14 Porter-Duff, C15 separable blend modes, C16 HCY blends
#include "gen.h"
#include "ops.h"
#include <cmath>

static double cie_eps(int t) { return t == XYZt ? 2e-5 : t == XYYt ? 1e-3 : is_device(t) ? 4e-6 : 5e-3; }
struct Pair { DefGen g; Space sp; Color *s, *d; Val vs, vd, S, D; std::string what; };
// two colours over one RGB space, their deep RGB forms as the library converts them
static Pair g_pair(Src& s, const char* op) {
	Pair p; p.g = s.chance(1, 4) ? g_def(s) : DefGen{preset_def(0), "sRGB"}; p.sp = space_of(p.g.d);
	int kind = (int)s.draw(4), a = kind < 2 ? RGBD : g_type(s), b = kind == 0 ? RGBD : g_type(s);
	Val x = g_color(s, a, p.g.d), y = g_color(s, b, p.g.d);
	if (s.chance(1, 12)) { y = x; y.a = g_alpha(s); }
	if (s.chance(1, 10)) { (s.flip() ? x : y).a = s.flip() ? 0.f : 1e-4f; }
	p.s = make(x); p.d = s.chance(1, 20) ? p.s : make(y); p.vs = snap(p.s); p.vd = snap(p.d);
	p.S = snap(convert(p.s, RGBD)); p.D = snap(convert(p.d, RGBD));
	p.what = fmt("%s(%s, %s) in %s", op, show(p.vs).c_str(), p.d == p.s ? "itself" : show(p.vd).c_str(), p.g.name.c_str());
	s.note("%s", p.what.c_str()); s.tag(std::string("source ") + TNAME[p.vs.t]);
	return p;
}
static void common(const Pair& p, Color* r) {
	const char* what = p.what.c_str();
	if (!r) fail("%s: no colour", what);
	if (r == p.s || r == p.d) fail("%s: not a fresh colour", what);
	check_valid(r, what);
	if (!(snap(p.s) == p.vs) || !(snap(p.d) == p.vd)) fail("%s: an input changed", what);
	if ((int)r->get_color_type() != p.vs.t) fail("%s: result is %s", what, show(r).c_str());
}
// expected deep RGB result; false if there is no statement about the components
struct Mix { DV e; std::array<double, 4> tol; bool ok; };
static Mix compose(const Pair& p, bool us, bool ud, bool ub, const std::array<double, 3>& both, double both_err = 0) {
	double sa = p.S.a, da = p.D.a, as = sa * (1 - da), ad = da * (1 - sa), ab = sa * da, al = (us ? as : 0) + (ud ? ad : 0) + (ub ? ab : 0);
	Mix m; m.e = dv(RGBD, 0, 0, 0, al, p.g.d); m.tol = {{0, 0, 0, 0}}; m.ok = true;
	// an area may be computed as s(1-d) or as s-sd
	double es = us ? 1.3e-7 * sa : 0, ed = ud ? 1.3e-7 * da : 0; if (da == 0 || da == 1) es = 0; if (sa == 0 || sa == 1) ed = 0;
	bool tiny = (al > 0 && (al < 1e-30 || al < 4 * (es + ed))) || (ab > 0 && ab < 1e-30);
	for (int i = 0; i < 3; ++i) {
		double b = ab * both[i], x = us ? as * p.S.c[i] : 0, y = ud ? ad * p.D.c[i] : 0, err = 6e-7 * (fabs(b) + x + y) + both_err * ab + es * p.S.c[i] + ed * p.D.c[i] + 1e-37;
		if (!(fabs(both[i]) < 3e38) || tiny) { m.ok = false; return m; } // overflow or underflow on the way
		double lo = clamp1(x + y + b - err), hi = clamp1(x + y + b + err);
		if (al > 0) { lo = clamp1(lo / (al + es + ed) * (1 - 6e-7)); hi = clamp1(hi / (al - es - ed) * (1 + 6e-7)); }
		m.e.c[i] = (lo + hi) / 2; m.tol[i] = (hi - lo) / 2 + 1e-7;
	}
	return m;
}
static void c14(Src& s) {
	int op = (int)s.strat(N_PD); Pair p = g_pair(s, PD_NAME[op]);
	struct Row { bool s, d; int b; }; // b: 0 nothing, 1 source, 2 destination
	static const Row ROW[N_PD] = {{1, 0, 1}, {0, 1, 2}, {0, 1, 1}, {1, 0, 2}, {1, 1, 1}, {1, 1, 2}, {0, 0, 1}, {0, 0, 2}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {0, 0, 0}};
	const Row& q = ROW[op];
	Color* r = op_pd(op, p.s, p.d); common(p, r);
	std::array<double, 3> both; for (int i = 0; i < 3; ++i) both[i] = q.b == 1 ? p.S.c[i] : q.b == 2 ? p.D.c[i] : 0;
	Mix m = compose(p, q.s, q.d, q.b != 0, both); const char* what = p.what.c_str();
	if (m.ok) expect_image(p.sp, snap(r), m.e, m.tol, cie_eps(p.vs.t), what);
	// relations of the algebra, on deep RGB
	static const int SWAP[N_PD] = {PD_DEST, PD_SRC, PD_DEST_ATOP, PD_ATOP, PD_DEST_OVER, PD_OVER, PD_DEST_IN, PD_IN, PD_DEST_OUT, PD_OUT, PD_XOR, PD_CLEAR};
	if (p.vs.t == RGBD && p.vd.t == RGBD && m.ok) {
		Val a = snap(r), b = snap(op_pd(SWAP[op], p.d, p.s));
		if (!(fabs(a.a - b.a) <= 4e-7)) fail("%s: alpha %.9g, %.9g from the counterpart operator", what, a.a, b.a);
		if (m.e.a > 1e-30) for (int i = 0; i < 3; ++i) if (!(fabs(a.c[i] - b.c[i]) <= 4e-6 + 2 * m.tol[i])) fail("%s: component %d is %.9g, %.9g from the counterpart operator", what, i, a.c[i], b.c[i]);
		if (op == PD_OVER && p.S.a == 1) for (int i = 0; i < 3; ++i) if (!(fabs(a.c[i] - p.S.c[i]) <= 1e-6)) fail("%s: an opaque source over anything is the source", what);
	}
	s.tag(PD_NAME[op]); double sa = p.S.a, da = p.D.a; s.tag(sa == 0 || da == 0 ? "transparent" : sa == 1 && da == 1 ? "both opaque" : sa == 1 || da == 1 ? "one opaque" : "both translucent");
	s.nt = sa > 0 && da > 0 && (sa < 1 || da < 1) && p.s != p.d;
}
PROPERTY("C14", c14, 250000, 4000000, "all 12 operators in turn on pairs of colours of any types under one RGB space (half deep RGB), alphas including 0, 1, nearly 0 and 8-bit values, equal colours and the same object twice; against the Porter-Duff areas in double precision, each operator against its counterpart; non-trivial: two objects, neither transparent, not both opaque");

static double blend(int m, double s, double d) {
	auto hard = [](double s, double d) { return s <= 0.5 ? 2 * d * s : 1 - (1 - d) * (1 - 2 * (s - 0.5)); };
	switch (m) {
	case B_NORMAL: return s;
	case B_MULTIPLY: return s * d;
	case B_SCREEN: return 1 - (1 - s) * (1 - d);
	case B_OVERLAY: return hard(d, s);
	case B_DARKEN: return std::min(s, d);
	case B_LIGHTEN: return std::max(s, d);
	case B_CDODGE: return d == 0 ? 0 : s == 1 ? 1 : std::min(1.0, d / (1 - s));
	case B_LDODGE: case B_PLUSL: return s + d;
	case B_CBURN: return d == 1 ? 0 : s == 0 ? 1 : std::min(1.0, (1 - d) / s); // inverted, as the existing tests fix it
	case B_LBURN: case B_PLUSD: return s + d - 1;
	case B_HARD: return hard(s, d);
	case B_SOFT: return s <= 0.5 ? d * (s + 0.5) : 1 - (1 - d) * (s - 0.5);
	case B_VIVID: if (s <= 0.5) return d == 0 ? 0 : s == 0.5 ? 1 : d / (1 - 2 * s); return d == 1 ? 1 : s == 1 ? 0 : 1 - (1 - d) / (2 * (s - 0.5));
	case B_LINEAR: return s <= 0.5 ? d + 2 * s - 1 : d + 2 * (s - 0.5);
	case B_PIN: return s <= 0.5 ? std::min(d, 2 * s) : std::max(d, 2 * (s - 0.5));
	case B_HARDMIX: return s < 1 - d ? 0 : 1;
	case B_DIFF: return fabs(s - d);
	case B_SUB: return s - d;
	case B_DIV: return d == 0 ? 0 : s == 0 ? 1 : d / s;
	case B_EXCL: return s + d - 2 * s * d;
	}
	return 0;
}
static bool matches(const Pair& p, Color* r, bool us, bool ud, const std::array<double, 3>& both, double err, std::string& why) {
	Mix m = compose(p, us, ud, true, both, err); if (!m.ok) return true;
	try { expect_image(p.sp, snap(r), m.e, m.tol, cie_eps(p.vs.t), p.what.c_str()); } catch (Fail& f) { why = f.msg; return false; }
	return true;
}
static void c15(Src& s) {
	int m = (int)s.strat(N_BLEND + 1); bool custom = m == N_BLEND;
	Pair p = g_pair(s, custom ? "custom_componentwise_blend" : BLEND_NAME[m]);
	bool us = !s.chance(1, 4), ud = !s.chance(1, 4); if (us && ud && s.chance(1, 2)) { us = s.flip(); ud = s.flip(); }
	p.what += fmt(" flags %d %d", us, ud); const char* what = p.what.c_str();
	if (!custom && m < B_DISSOLVE && p.vs.t == RGBD && s.chance(1, 3)) { // sit on or next to a branch point of the mode
		static const float at[] = {0.f, 0.5f, 1.f, 0.25f, 0.75f}; Val x = p.S, y = p.D;
		auto put = [&](float v) { int k = s.range(-1, 1); float q = k < 0 ? nextafterf(v, -1) : k > 0 ? nextafterf(v, 2) : v; return q < 0 ? 0.f : q > 1 ? 1.f : q; };
		for (int i = 0; i < 3; ++i) { if (s.flip()) x.c[i] = put(at[s.draw(5)]); if (s.flip()) y.c[i] = s.chance(1, 3) ? 1.f - x.c[i] : put(at[s.draw(5)]); }
		p.s = make(x); p.d = make(y); p.vs = p.S = snap(p.s); p.vd = p.D = snap(p.d);
		p.what = fmt("%s(%s, %s) flags %d %d", BLEND_NAME[m], show(p.vs).c_str(), show(p.vd).c_str(), us, ud); what = p.what.c_str(); s.note("on branch points: %s", what); s.tag("branch points");
	}
	std::array<double, 3> both; std::string why;
	if (custom) {
		int f = (int)s.draw(6); float k = s.range(-30, 30) / 10.f, l = s.range(-30, 30) / 10.f; s.note("function %d, %g, %g", f, k, l);
		auto fn = [f, k, l](float a, float b) -> float { switch (f) { case 0: return a; case 1: return b; case 2: return k * a + l * b; case 3: return k; case 4: return a < b ? k : l; default: return a * a - b; } };
		int calls = 0; bool bad = false;
		Color* r = op_custom(p.s, p.d, us, ud, [&](float a, float b) { ++calls; bool hit = false; for (int i = 0; i < 3; ++i) hit = hit || (a == p.S.c[i] && b == p.D.c[i]); bad = bad || !hit; return fn(a, b); });
		common(p, r);
		if (bad) fail("%s: the blend function is given values that are not a channel of source and destination", what);
		for (int i = 0; i < 3; ++i) both[i] = fn(p.S.c[i], p.D.c[i]);
		if (!matches(p, r, us, ud, both, 0, why)) fail("%s", why.c_str());
		s.tag("custom");
	}
	else if (m == B_DISSOLVE) {
		Color* r = op_blend(m, p.s, p.d, us, ud); common(p, r); bool ok = false;
		for (int k = 0; k < 8 && !ok; ++k) { for (int i = 0; i < 3; ++i) both[i] = k >> i & 1 ? p.D.c[i] : p.S.c[i]; ok = matches(p, r, us, ud, both, 0, why); }
		if (!ok) fail("%s is no channel-wise choice: %s", what, why.c_str());
		if (s.chance(1, 400)) { // three quarters of the choices are the less transparent colour, for every channel, and channels are chosen one by one
			float hi = 1.f - s.draw(8) / 16.f, lo = hi - 0.125f; bool first = s.flip(); int N = 2000, all = 0, n[3] = {0, 0, 0}, differ[3] = {0, 0, 0};
			Val x = p.S, y = p.D; x.t = y.t = RGBD; x.a = first ? hi : lo; y.a = first ? lo : hi; x.d = y.d = p.g.d; x.c = {1, 1, 1}; y.c = {0, 0, 0};
			if (s.flip()) for (int i = 0; i < 3; ++i) { x.c[i] = 0.6f + s.draw(4) / 10.f; y.c[i] = s.draw(4) / 10.f; if (s.flip()) std::swap(x.c[i], y.c[i]); }
			Color *a = make(x), *b = make(y);
			for (int i = 0; i < N; ++i) {
				Val v = snap(op_blend(m, a, b, false, false)); bool src[3];
				for (int k = 0; k < 3; ++k) { src[k] = fabsf(v.c[k] - x.c[k]) < fabsf(v.c[k] - y.c[k]); n[k] += src[k] == first; all += src[k] == first; }
				for (int k = 0; k < 3; ++k) differ[k] += src[k] != src[(k + 1) % 3];
			}
			s.note("rates %d %d %d of %d, neighbours differ %d %d %d", n[0], n[1], n[2], N, differ[0], differ[1], differ[2]);
			for (int k = 0; k < 3; ++k) if (n[k] < 0.67 * N || n[k] > 0.83 * N) fail("dissolve of %s and %s: channel %d %d of %d times from the less transparent colour", show(x).c_str(), show(y).c_str(), k, n[k], N);
			if (all < 0.71 * 3 * N || all > 0.795 * 3 * N) fail("dissolve of %s and %s: %d of %d channels from the less transparent colour", show(x).c_str(), show(y).c_str(), all, 3 * N);
			for (int k = 0; k < 3; ++k) if (differ[k] < 0.05 * N) fail("dissolve of %s and %s: channels %d and %d come from the same colour in all but %d of %d cases", show(x).c_str(), show(y).c_str(), k, (k + 1) % 3, differ[k], N);
			s.tag("dissolve rate");
		}
	}
	else {
		bool def = us && ud && s.flip(); Color* r = def ? op_blend_def(m, p.s, p.d) : op_blend(m, p.s, p.d, us, ud); common(p, r);
		bool ok = false; double err = m == B_DIV || m == B_VIVID || m == B_CDODGE || m == B_CBURN ? 0 : 3e-7;
		for (int k = 0; k < 8 && !ok; ++k) {
			bool skip = false; for (int i = 0; i < 3; ++i) { double a = p.S.c[i], b = p.D.c[i]; both[i] = blend(m, a, b);
				if (k >> i & 1) { if (m == B_HARDMIX && fabs(a + b - 1) < 1e-6) both[i] = 1 - both[i]; else skip = true; } } // the sum may round to the other side
			if (!skip) ok = matches(p, r, us, ud, both, err, why);
			if (m != B_HARDMIX) break;
		}
		if (!ok) fail("%s", why.c_str());
	}
	if (!custom) s.tag(BLEND_NAME[m]);
	if (!us || !ud) s.tag(us ? "source region only" : ud ? "destination region only" : "no own regions");
	s.nt = p.S.a > 0 && p.D.a > 0 && p.s != p.d && !(p.S == p.D);
}
PROPERTY("C15", c15, 300000, 5000000, "all 22 formula modes, dissolve and user functions (also out of range) in turn on pairs of colours of any types, alphas and region flags, a part of them on or one ulp beside the branch points of the mode; against the formula in double precision; dissolve against all eight channel choices and its rate; non-trivial: two different colours, neither transparent");

static void c16(Src& s) {
	int m = (int)s.strat(N_HUE), t1 = (int)s.strat(NT);
	DefGen g = s.chance(1, 3) ? g_def(s) : DefGen{preset_def(0), "sRGB"}; Space sp = space_of(g.d);
	int t2 = g_type(s); Val x = g_color(s, t1, g.d), y = s.chance(1, 8) ? x : g_color(s, t2, g.d); bool self = s.chance(1, 8);
	Pair p; p.g = g; p.sp = sp; p.s = make(x); p.d = self ? p.s : make(y); p.vs = snap(p.s); p.vd = snap(p.d);
	bool us = s.flip(), ud = s.flip();
	p.what = fmt("%s(%s, %s, %d, %d) in %s", HUE_NAME[m], show(p.vs).c_str(), self ? "itself" : show(p.vd).c_str(), us, ud, g.name.c_str()); const char* what = p.what.c_str(); s.note("%s", what);
	Val S = snap(convert(p.s, HCYt)), D = snap(convert(p.d, HCYt));
	Color* r = us && ud && s.flip() ? op_hue_def(m, p.s, p.d) : op_hue(m, p.s, p.d, us, ud); common(p, r);
	const Val &h = m == H_HUE || m == H_COLOR ? S : D, &c = m == H_SAT || m == H_COLOR ? S : D, &l = m == H_LUM ? S : D;
	DV e = dv(HCYt, h.c[0], c.c[1], l.c[2], S.a, g.d);
	expect_image(sp, snap(r), e, {{t1 == HCYt ? 0 : 4e-5, t1 == HCYt ? 0 : 5e-7, t1 == HCYt ? 0 : 5e-7, 0}}, t1 == HCYt ? 1e-7 : cie_eps(t1), what);
	if ((self || p.vs == p.vd) && (t1 == RGBT || t1 == RGBD || t1 == GD || t1 == HCYt)) { // the colour itself, unless its hue lies between 359 and 360
		Val a = snap(r); V3 q = dev_to_rgb(t1, dv(p.vs).c); double hue = rgb_hue(q);
		bool whole = true; if (t1 == RGBT) for (float v : p.vs.c) whole = whole && v == floorf(v); float al = p.vs.a * 255.f; whole = whole && (t1 != RGBT || fabsf(al - roundf(al)) < 1e-4f);
		if (t1 == HCYt || (hue < 358.99 && whole && !(hue < 1e-4 && q[1] != q[2]))) for (int i = 0; i < NCOMP[t1]; ++i) if (!(fabs(a.c[i] - p.vs.c[i]) <= 4e-6 * (t1 == HCYt && i == 0 ? 90 : 1))) fail("%s: the colour with itself gives %s", what, show(a).c_str());
	}
	s.tag(HUE_NAME[m]); if (self) s.tag("itself"); else if (p.vs == p.vd) s.tag("equal colours");
	s.nt = !self && !(p.vs == p.vd) && S.c[1] > 1e-3 && D.c[1] > 1e-3;
}
PROPERTY("C16", c16, 200000, 4000000, "the four modes and 15 source types in turn, destination of any type, random alphas, flags and RGB spaces, equal colours and the same object; against a recombination of the two colours' HCY values; non-trivial: two different colours, both with chroma");
