// C12 adding, mixing, subtracting; C13 averaging
#include "gen.h"
#include "ops.h"
#include <cmath>
#include <algorithm>

static float g_weight(Src& s) {
	switch (s.draw(4)) {
	case 0: { static const float w[] = {1.f, 0.f, 0.5f, 0.25f, 0.75f}; return w[s.draw(5)]; }
	case 1: return s.draw(101) / 100.f;
	case 2: { static const float w[] = {1e-3f, 1e-6f, 1e-20f, 1e-45f, 0.999999f, 0.99999994f}; return w[s.draw(6)]; }
	default: return g_unit(s);
	}
}
static const double PI = 3.14159265358979323846;
enum { ADD, MIX, SUB };
static const char* const OP[] = {"add", "mix", "subtract"};

// weighted combination of two colours of the type the sum is defined in; tol receives the accuracy of float arithmetic
static DV weighted(int op, const Val& x, const Val& y, double w1, double w2, bool al, std::array<double, 4>& tol) {
	DV r = dv(x); tol = {{0, 0, 0, 0}};
	double k2 = op == SUB ? -w2 : w2;
	bool root = op != SUB && (x.t == RGBT || x.t == RGBD);
	auto lin = [&](double a, double b) { return w1 * a + k2 * b; };
	auto sq = [&](double a, double b) { return sqrt(w1 * a * a + w2 * b * b); };
	if (x.t == HSVt) {
		auto vec = [](const Val& v, double& px, double& py) { px = cos(v.c[0] * PI / 180) * v.c[1]; py = sin(v.c[0] * PI / 180) * v.c[1]; };
		double ax, ay, bx, by; vec(x, ax, ay); vec(y, bx, by);
		double px = lin(ax, bx), py = lin(ay, by), n = hypot(px, py), e = 4e-7 * (w1 * x.c[1] + w2 * y.c[1]) + 1e-22; // squares underflow below that
		r.c[0] = atan2(py, px) * 180 / PI; if (r.c[0] < 0) r.c[0] += 360;
		r.c[1] = n; r.c[2] = lin(x.c[2], y.c[2]);
		tol = {{std::min(180.0, e / std::max(n, 1e-30) * 60 + 4e-5), 2 * e + 2e-7 * n, 3e-7 * (w1 * x.c[2] + w2 * y.c[2]) + 1e-33, 0}};
		r.c[1] = std::min(1.0, r.c[1]);
	}
	else for (int i = 0; i < NCOMP[x.t]; ++i) {
		double a = x.c[i], b = y.c[i];
		r.c[i] = root ? sq(a, b) : lin(a, b);
		tol[i] = 4e-7 * (root ? r.c[i] : w1 * fabs(a) + w2 * fabs(b)) + (root ? 1e-20 : 1e-33);
	}
	r.a = al ? clamp1(root ? sq(x.a, y.a) : lin(x.a, y.a)) : x.a;
	if (al && !root && x.t != RGBT && x.t != GT) r.a = clamp1(lin(x.a, y.a));
	return r; // limited by the comparison, which may have to wrap the hue first
}
static void c12(Src& s) {
	int t = (int)s.strat(NT), op = (int)s.strat(3);
	DefGen g = s.chance(1, 3) ? g_def(s) : DefGen{preset_def(0), "sRGB"}; Space sp = space_of(g.d);
	bool typed = s.flip();
	Val v1 = g_color(s, t, g.d);
	DefGen g2 = s.chance(1, 6) ? g_other(s, g) : g;
	int t2 = typed || s.chance(1, 3) ? t : g_type(s);
	bool same = s.chance(1, 12);
	Val v2 = same ? v1 : g_color(s, t2, g2.d); if (same) { t2 = t; g2 = g; }
	if (s.chance(1, 10) && t2 == t) { v2 = v1; v2.d = g2.d; if (hue_index(t) >= 0 && s.flip()) { int h = hue_index(t); v2.c[h] = v2.c[h] >= 180 ? v2.c[h] - 180 : std::min(359.f, v2.c[h] + 180); } }
	Color *c1 = make(v1), *c2 = same ? c1 : make(v2); v1 = snap(c1); v2 = snap(c2);
	float w1 = g_weight(s), w2 = op == MIX ? 1.f - w1 : g_weight(s); bool al = s.chance(2, 5), def = s.chance(1, 10);
	if (def) { al = false; w1 = op == MIX ? 0.5f : 1; w2 = op == MIX ? 0.5f : 1; }
	if (op == SUB) w1 = 1;
	std::string w = fmt("%s%s(%s, %s, ", typed ? "typed " : "", OP[op], show(v1).c_str(), same ? "itself" : show(v2).c_str()) + (def ? "defaults" : op == ADD ? fmt("%.9g, %.9g, %s", w1, w2, al ? "alpha" : "no alpha") : fmt("%.9g, %s", op == MIX ? w1 : w2, al ? "alpha" : "no alpha")) + ") in " + g.name + (g2.d != g.d ? " and " + g2.name : "");
	const char* what = w.c_str(); s.note("%s", what);
	Color* r = def ? op == ADD ? op_add_def(c1, c2, typed) : op == MIX ? op_mix_def(c1, c2, typed) : op_sub_def(c1, c2, typed)
		: op == ADD ? op_add(c1, c2, w1, w2, al, typed) : op == MIX ? op_mix(c1, c2, w1, al, typed) : op_sub(c1, c2, w2, al, typed);
	if (!r) fail("%s: no colour", what);
	check_valid(r, what);
	if (r == c1 || r == c2) fail("%s: not a fresh colour", what);
	if (!(snap(c1) == v1) || !(snap(c2) == v2)) fail("%s: an operand changed", what);
	Val act = snap(r);
	if (act.t != t) fail("%s: result is %s", what, show(act).c_str());
	// the second colour in the first one's type, then both in the type the sum is defined in; conversions are C07..C10's matter
	Color* d2 = convert(c2, t);
	int base = t == HSIt || t == HSLt || t == HCYt ? HSVt : t == LABt || t == LCHAB || t == LCHUV ? XYZt : t;
	Val x = snap(convert(c1, base)), y = snap(convert(d2, base));
	std::array<double, 4> tol; DV e = weighted(op, x, y, w1, w2, al, tol); e.d = g.d;
	expect_image(sp, act, e, tol, base == t ? (t == XYZt ? 1e-9 : 1e-7) : is_device(t) ? 4e-6 : t == LABt ? 2e-3 : 4e-3, what, 4e-7);
	s.tag(fmt("%s %s", OP[op], TNAME[t])); if (t2 != t) s.tag("mixed types"); if (g2.d != g.d) s.tag("mixed spaces");
	s.nt = w1 > 0 && w2 > 0 && !same;
}
PROPERTY("C12", c12, 200000, 4000000, "add, mix and subtract of all 15 types in turn, typed and general overloads, equal and mixed types and RGB spaces, the same object twice, opposite hues, weights at and near 0 and 1, with and without alpha and with default arguments; against the weighted formula in double precision, in the type it is defined in; non-trivial: both weights positive, two different objects");

static void c13(Src& s) {
	int t = (int)s.strat(NT); DefGen g = s.chance(1, 4) ? g_def(s) : DefGen{preset_def(0), "sRGB"};
	int n; switch (s.draw(8)) { case 0: n = 1; break; case 1: n = 2; break; case 7: n = s.chance(1, 20) ? s.range(100, 1500) : s.range(10, 60); break; default: n = s.range(2, 9); }
	int kind = (int)s.draw(5); bool al = s.flip();
	std::vector<Color*> v; std::vector<Val> x; Val first;
	for (int i = 0; i < n; ++i) {
		DefGen h = i && kind == 4 && s.chance(1, 6) ? g_other(s, g) : g;
		if (i && kind == 3) { v.push_back(s.flip() ? v[0] : make(x[0])); x.push_back(x[0]); continue; } // copies
		if (i && kind == 2 && s.flip()) { int j = (int)s.draw((uint32_t)i); v.push_back(v[j]); x.push_back(x[j]); continue; }
		Val q = s.flip() ? g_color(s, t, h.d) : g_full(s, t, h.d); Color* c = make(q); v.push_back(c); x.push_back(snap(c));
	}
	std::string w = fmt("average of %d %s%s:", n, TNAME[t], al ? " with alpha" : ""); for (int i = 0; i < std::min(n, 6); ++i) w += " " + show(x[i]); const char* what = w.c_str();
	s.note("%s", what);
	bool def = !al && s.flip(); Color* r = def ? op_average_def(t, v) : op_average(t, v, al); if (!r) fail("%s: no colour", what); check_valid(r, what);
	for (int i = 0; i < n; ++i) { if (r == v[i]) fail("%s: not a fresh colour", what); if (!(snap(v[i]) == x[i])) fail("%s: colour %d changed", what, i); }
	Val a = snap(r);
	if (a.t != t || a.d != x[0].d) fail("%s: result is %s", what, show(a).c_str());
	auto mean = [&](std::function<double(const Val&)> f, double act, const char* name) {
		double sum = 0, mag = 0, lo = 1e300, hi = -1e300; for (auto& q : x) { double y = f(q); sum += y; mag += fabs(y); lo = std::min(lo, y); hi = std::max(hi, y); }
		double tol = (n + 3) * 6.1e-8 * mag / n + 1e-38;
		if (!(fabs(act - sum / n) <= tol)) fail("%s: %s is %.9g, the mean is %.9g", what, name, act, sum / n);
		if (!(act >= lo - tol && act <= hi + tol)) fail("%s: %s is %.9g outside %.9g..%.9g", what, name, act, lo, hi);
	};
	for (int i = 0; i < NCOMP[t]; ++i) mean([i](const Val& q) { return (double)q.c[i]; }, a.c[i], fmt("component %d", i).c_str());
	if (al) mean([](const Val& q) { return (double)q.a; }, a.a, "alpha"); else if (!(fabs(a.a - x[0].a) <= 3e-7)) fail("%s: alpha is %.9g, the first colour's is %.9g", what, a.a, x[0].a);
	// another order of the list
	if (n > 1) {
		int k = s.range(1, n - 1); std::vector<Color*> u(v); std::rotate(u.begin(), u.begin() + k, u.end()); if (s.flip()) std::reverse(u.begin(), u.end());
		Val b = snap(op_average(t, u, al));
		for (int i = 0; i < NCOMP[t]; ++i) { double mag = 0; for (auto& q : x) mag += fabs(q.c[i]); if (!(fabs(a.c[i] - b.c[i]) <= (n + 3) * 1.3e-7 * mag / n + 1e-38)) fail("%s: component %d is %.9g, in another order %.9g", what, i, a.c[i], b.c[i]); }
		if (b.d != snap(u[0]).d) fail("%s: in another order the RGB space is not the first colour's", what);
	}
	s.tag(fmt("%s", TNAME[t])); s.tag(n == 1 ? "1 colour" : n < 10 ? "2-9 colours" : n < 100 ? "10-99 colours" : "100 or more colours"); if (kind == 3) s.tag("copies"); if (def) s.tag("default arguments");
	s.nt = n > 1 && kind != 3;
}
PROPERTY("C13", c13, 150000, 4000000, "lists of 1 to 60 (some 1500) colours of all 15 types in turn, independent, repeated objects, copies of one colour, mixed RGB spaces, with and without alpha; against the mean in double precision, and again rotated or reversed; non-trivial: two or more colours that are not all copies");
