// C06 matrices
#include "gen.h"
#include "utils/matrix.h"
#include <climits>
#include <cmath>
#include <limits>
#include <memory>

typedef std::vector<std::vector<double>> Grid; // the model: rows of values
struct Model { int r = 0, c = 0; Grid v; };
static Grid grid(int r, int c, double x = 0) { return Grid((size_t)r, std::vector<double>((size_t)c, x)); }
static Model mk(int r, int c, double x = 0) { Model m; m.r = r; m.c = c; m.v = grid(r, c, x); return m; }
static Model minor_of(const Model& m, int i, int j) {
	Model q = mk(m.r - 1, m.c - 1);
	for (int a = 0; a < q.r; ++a) for (int b = 0; b < q.c; ++b) q.v[a][b] = m.v[a + (a >= i)][b + (b >= j)];
	return q;
}
// determinant by expansion, and the same sum over absolute values (what rounding errors are relative to)
static void det_of(const Model& m, long double& d, long double& mag) {
	if (m.r == 0) { d = mag = 1; return; }
	if (m.r == 1) { d = m.v[0][0]; mag = fabsl(d); return; }
	d = mag = 0;
	for (int j = 0; j < m.c; ++j) {
		if (m.v[0][j] == 0) continue;
		long double a, b; det_of(minor_of(m, 0, j), a, b);
		d += (j % 2 ? -1 : 1) * m.v[0][j] * a; mag += fabsl((long double)m.v[0][j]) * b;
	}
}
template <class T> struct Env {
	Src& s; bool real; double scale;
	struct Item { std::unique_ptr<matrix<T>> m; Model x; };
	std::vector<Item> pool;
	const double eps = std::is_same<T, int>::value ? 0 : (double)std::numeric_limits<T>::epsilon();
	std::string at;

	explicit Env(Src& src, bool re) : s(src), real(re), scale(1) { static const double sc[] = {1, 10, 1000, 0.01}; if (real) scale = sc[s.draw(4)]; }
	double g_el() {
		if (s.chance(1, 5)) return 0;
		if (!real) return s.range(-9, 9);
		return (double)(T)((g_unit(s) * 2 - 1) * scale);
	}
	Model g_model(int r, int c) {
		Model m = mk(r, c);
		for (auto& row : m.v) for (auto& x : row) x = g_el();
		if (r > 1 && c > 0 && s.chance(1, 6)) { int a = (int)s.draw((uint32_t)r), b = (int)s.draw((uint32_t)r); m.v[a] = m.v[b]; }
		else if (r > 0 && s.chance(1, 10)) { int a = (int)s.draw((uint32_t)r); for (auto& x : m.v[a]) x = 0; }
		else if (c > 1 && s.chance(1, 8)) { int a = (int)s.draw((uint32_t)c), b = (int)s.draw((uint32_t)c); for (auto& row : m.v) row[a] = row[b]; }
		else if (r > 1 && !real && s.chance(1, 6)) { int a = (int)s.draw((uint32_t)r), b = (int)s.draw((uint32_t)r); for (int j = 0; j < c; ++j) m.v[a][j] = 2 * m.v[b][j]; }
		return m;
	}
	std::vector<T> flat(const Model& m) { std::vector<T> v; for (auto& row : m.v) for (double x : row) v.push_back((T)x); return v; }
	std::string text(const Model& m) { std::string r = fmt("%dx%d[", m.r, m.c); for (auto& row : m.v) { for (double x : row) r += fmt("%.9g ", x); r += "; "; } return r + "]"; }
	// actual matrix against the model; tol per element
	void same(const matrix<T>& a, const Model& e, const Grid* tol = nullptr) {
		if (a.rows() != e.r || a.columns() != e.c || a.size() != e.r * e.c) fail("%s: matrix is %dx%d (size %d), expected %dx%d", at.c_str(), a.rows(), a.columns(), a.size(), e.r, e.c);
		auto v = a.values();
		if ((int)v.size() != e.r) fail("%s: values() has %zu rows, expected %d", at.c_str(), v.size(), e.r);
		for (int i = 0; i < e.r; ++i) {
			if ((int)v[i].size() != e.c) fail("%s: row %d has %zu values, expected %d", at.c_str(), i, v[i].size(), e.c);
			for (int j = 0; j < e.c; ++j) {
				double x = a(i, j), t = tol ? (*tol)[i][j] : 0;
				if (x != (double)v[i][j]) fail("%s: element %d,%d and values() disagree", at.c_str(), i, j);
				if (!(fabs(x - e.v[i][j]) <= t)) fail("%s: element %d,%d is %.9g, expected %.9g (%s)", at.c_str(), i, j, x, e.v[i][j], text(e).c_str());
			}
		}
	}
	void adopt(Model& x, const matrix<T>& a) { x.r = a.rows(); x.c = a.columns(); auto v = a.values(); x.v = grid(x.r, x.c); for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) x.v[i][j] = v[i][j]; }
	// integers and doubles that leave the exactly representable range are not followed further
	bool fits(const Model& m) { for (auto& r : m.v) for (double x : r) if (!(fabs(x) < (std::is_same<T, int>::value ? 1e8 : real ? 1e12 : 8e6))) return false; return true; }
	size_t pick() { return s.draw((uint32_t)pool.size()); }
	size_t pick_like(size_t a, bool inner) { // same size, or rows matching a's columns
		std::vector<size_t> ok; for (size_t i = 0; i < pool.size(); ++i) if (inner ? pool[i].x.r == pool[a].x.c : pool[i].x.r == pool[a].x.r && pool[i].x.c == pool[a].x.c) ok.push_back(i);
		if (ok.empty()) { int r = inner ? pool[a].x.c : pool[a].x.r, c = inner ? s.range(0, 5) : pool[a].x.c; build(r, c, 2); return pool.size() - 1; }
		return ok[s.draw((uint32_t)ok.size())];
	}
	void build(int r, int c, int way) {
		Item it; it.x = mk(r, c);
		switch (way) {
		case 0: it.m.reset(new matrix<T>(r, c)); break;
		case 1: { double x = g_el(); it.m.reset(new matrix<T>(r, c, (T)x)); it.x = mk(r, c, x); break; }
		case 2: it.x = g_model(r, c); it.m.reset(new matrix<T>(r, c, flat(it.x))); break;
		case 3: it.x = mk(r, r); it.m.reset(new matrix<T>(r)); break;
		case 4: it.x = g_model(r, r); it.m.reset(new matrix<T>(r, flat(it.x))); break;
		case 5: it.x = mk(0, 0); it.m.reset(new matrix<T>()); break;
		default: it.x = mk(r, r); for (int i = 0; i < r; ++i) it.x.v[i][i] = 1; it.m.reset(new matrix<T>(matrix<T>::create_idendity(r))); break;
		}
		at = fmt("construction %d of %dx%d", way, r, c); s.note("#%zu = construction %d %s", pool.size(), way, text(it.x).c_str());
		same(*it.m, it.x);
		pool.push_back(std::move(it));
	}
	void result(matrix<T>&& a, Model e, const Grid* tol) {
		same(a, e, tol);
		Item it; it.m.reset(new matrix<T>(a)); adopt(it.x, a); if (fits(it.x)) pool.push_back(std::move(it));
	}
	Model sum(const Model& a, const Model& b, double sign, Grid& tol) { Model e = mk(a.r, a.c); tol = grid(a.r, a.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) { e.v[i][j] = a.v[i][j] + sign * b.v[i][j]; tol[i][j] = eps * fabs(e.v[i][j]); } return e; }
	Model product(const Model& a, const Model& b, Grid& tol) {
		Model e = mk(a.r, b.c); tol = grid(a.r, b.c);
		for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) { double m = 0; for (int k = 0; k < a.c; ++k) { e.v[i][j] += a.v[i][k] * b.v[k][j]; m += fabs(a.v[i][k] * b.v[k][j]); } tol[i][j] = real ? eps * m * (a.c + 2) : 0; }
		return e;
	}
	void large() { // the determinant of sizes whose adjoint takes too long
		int n = s.chance(1, 8) ? 8 : 7; Model x = mk(n, n); for (auto& r : x.v) for (double& e : r) e = s.chance(2, 5) ? 0 : s.range(-3, 3);
		matrix<T> a(n, n, flat(x)); at = "determinant of " + text(x); s.note("%s", at.c_str()); s.tag("determinant of size 7 or 8");
		long double d, mag; det_of(x, d, mag); if (!real && mag > (std::is_same<T, float>::value ? 1.6e7 : 2e9)) return;
		double got = a.determinante(), dt = real ? 8 * n * eps * (double)mag : 0; if (!(fabs(got - (double)d) <= dt)) fail("%s is %.9g, expected %.9g", at.c_str(), got, (double)d);
		same(a, x);
	}
	void run() {
		if (s.chance(1, 192)) large();
		int n0 = s.range(1, 3);
		for (int i = 0; i < n0; ++i) { int r = s.range(0, 6), c = s.range(0, 6); if (i && s.chance(1, 4)) (s.flip() ? r : c) = s.flip() ? pool[0].x.r : pool[0].x.c; build(r, c, (int)s.draw(7)); }
		int steps = s.range(1, 10); bool used = false;
		for (int k = 0; k < steps && pool.size() < 16; ++k) {
			size_t a = pick(); int op = (int)s.draw(19); std::vector<Model> before; Grid tol;
			size_t b = op >= 7 && op <= 9 ? pick_like(a, op == 9) : op == 2 ? pick() : 0;
			bool in_place = op == 8 ? s.flip() : false;
			for (auto& it : pool) before.push_back(it.x);
			Model& x = pool[a].x; Item& A = pool[a]; int R = x.r, C = x.c; bool target = false; // target: a may change
			at = fmt("operation %d on #%zu %s", op, a, text(x).c_str()); s.note("%s", at.c_str());
			switch (op) {
			case 0: build(s.range(0, 6), s.range(0, 6), (int)s.draw(7)); before.push_back(pool.back().x); break;
			case 1: { Item it; it.m.reset(new matrix<T>(*A.m)); it.x = x; same(*it.m, it.x); if (!(*it.m == *pool[a].m)) fail("%s: copy is not equal", at.c_str()); pool.push_back(std::move(it)); before.push_back(pool.back().x); break; }
			case 2: { *A.m = *pool[b].m; Model y = pool[b].x; A.x = y; target = true; break; }
			case 3: { // element write and bad positions
				if (R && C) { int i = s.range(0, R - 1), j = s.range(0, C - 1); double v = g_el(); (*A.m)(i, j) = (T)v; A.x.v[i][j] = v; target = true; }
				static const int bad[] = {-1, INT_MIN, INT_MAX, -7, 1000};
				int i = s.flip() && R ? s.range(0, R - 1) : s.flip() ? R + (int)s.draw(3) : bad[s.draw(5)], j = s.flip() && C ? s.range(0, C - 1) : s.flip() ? C + (int)s.draw(3) : bad[s.draw(5)];
				bool ok = i >= 0 && i < R && j >= 0 && j < C; const matrix<T>& K = *A.m;
				bool t1 = throws([&]() { volatile T y = K(i, j); (void)y; }), t2 = throws([&]() { volatile T y = (*A.m)(i, j); (void)y; });
				if (t1 != !ok || t2 != !ok) fail("%s: position %d,%d is %s", at.c_str(), i, j, ok ? "rejected" : "accepted");
				break; }
			case 4: { // insert
				bool right = !s.chance(1, 3); Model v = g_model(R, C); auto f = flat(v); if (!right) { if (s.flip() || f.empty()) f.push_back((T)3); else f.pop_back(); }
				auto keep = f; matrix<T>& r = A.m->insert(f); if (&r != A.m.get() || f != keep) fail("%s: insert returned another matrix or changed its argument", at.c_str());
				if (right) A.x = v; target = true; break; }
			case 5: { // resize
				int r = s.range(0, 7), c = s.range(0, 7); bool def = s.chance(1, 4); double f = def ? 0 : g_el(); matrix<T>& q = def ? A.m->resize(r, c) : A.m->resize(r, c, (T)f);
				if (&q != A.m.get()) fail("%s: resize returned another matrix", at.c_str());
				Model e = mk(r, c, f); for (int i = 0; i < std::min(r, R); ++i) for (int j = 0; j < std::min(c, C); ++j) e.v[i][j] = x.v[i][j];
				A.x = e; target = true; at += fmt(" to %dx%d", r, c); break; }
			case 6: { double v = g_el(); A.m->fill((T)v); A.x = mk(R, C, v); target = true; break; }
			case 7: { double sign = s.flip() ? 1 : -1; Model e = sum(x, pool[b].x, sign, tol); result(sign > 0 ? *A.m + *pool[b].m : *A.m - *pool[b].m, e, real ? &tol : nullptr); while (before.size() < pool.size()) before.push_back(pool[before.size()].x); used = used || (R > 1 && C > 1); break; }
			case 8: { // compound assignment; also with itself
				int w = (int)s.draw(3); if (in_place) b = a; if (w == 2 && (R != C || pool[b].x.r != R)) w = 0;
				Model e = w == 2 ? product(x, pool[b].x, tol) : sum(x, pool[b].x, w ? -1 : 1, tol); if (!fits(e)) break;
				matrix<T>& q = w == 2 ? (*A.m *= *pool[b].m) : w ? (*A.m -= *pool[b].m) : (*A.m += *pool[b].m);
				if (&q != A.m.get()) fail("%s: compound assignment returned another matrix", at.c_str());
				same(*A.m, e, &tol); adopt(A.x, *A.m); target = true; break; }
			case 9: { Model e = product(x, pool[b].x, tol); if (!fits(e)) break; at += " times " + text(pool[b].x); result(*A.m * *pool[b].m, e, &tol); while (before.size() < pool.size()) before.push_back(pool[before.size()].x); used = used || (R > 1 && C > 1 && pool[b].x.c != C); break; }
			case 10: { // scalars
				int w = (int)s.draw(4); double v = g_el(); if (w == 3 && v == 0) v = 2; if (w == 3 && !real && !std::is_same<T, int>::value) w = 2; Model e = mk(R, C); tol = grid(R, C);
				for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) { double y = x.v[i][j]; e.v[i][j] = w == 0 ? y + v : w == 1 ? y - v : w == 2 ? y * v : std::is_same<T, int>::value ? (double)((int)y / (int)v) : y / v; tol[i][j] = eps * fabs(e.v[i][j]); }
				if (!fits(e)) break; T t = (T)v;
				result(w == 0 ? *A.m + t : w == 1 ? *A.m - t : w == 2 ? *A.m * t : *A.m / t, e, &tol); while (before.size() < pool.size()) before.push_back(pool[before.size()].x); break; }
			case 11: { // vector
				Model v = g_model(C, 1); auto f = flat(v); auto keep = f; Model e = product(x, v, tol); if (!fits(e)) break; auto r = *A.m * f;
				if (f != keep || (int)r.size() != R) fail("%s: product with a vector has %zu values or changed the vector", at.c_str(), r.size());
				for (int i = 0; i < R; ++i) if (!(fabs((double)r[i] - e.v[i][0]) <= tol[i][0])) fail("%s: times %s, component %d is %.9g, expected %.9g", at.c_str(), text(v).c_str(), i, (double)r[i], e.v[i][0]);
				used = used || (R > 1 && C > 1); break; }
			case 12: case 13: { Model e = mk(C, R); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) e.v[j][i] = x.v[i][j]; result(A.m->transpose(), e, nullptr); if (!(pool.back().m->transpose() == *pool[a].m)) fail("%s: transposed twice is another matrix", at.c_str()); while (before.size() < pool.size()) before.push_back(pool[before.size()].x); used = used || R != C; break; }
			case 14: { // row and column predicates
				for (int i = 0; i < R + 2; ++i) { bool z = i < R; for (int j = 0; z && j < C; ++j) z = x.v[i][j] == 0; if (A.m->is_row_null(i) != z) fail("%s: is_row_null(%d)", at.c_str(), i);
					for (int q = 0; q < R + 2; ++q) { bool eq = i < R && q < R && x.v[i] == x.v[q]; if (A.m->are_rows_equal(i, q) != eq) fail("%s: are_rows_equal(%d,%d)", at.c_str(), i, q); } }
				for (int i = 0; i < C + 2; ++i) { bool z = i < C; for (int j = 0; z && j < R; ++j) z = x.v[j][i] == 0; if (A.m->is_column_null(i) != z) fail("%s: is_column_null(%d)", at.c_str(), i);
					for (int q = 0; q < C + 2; ++q) { bool eq = i < C && q < C; for (int j = 0; eq && j < R; ++j) eq = x.v[j][i] == x.v[j][q]; if (A.m->are_columns_equal(i, q) != eq) fail("%s: are_columns_equal(%d,%d)", at.c_str(), i, q); } }
				for (auto& o : pool) { const matrix<T>&ca = *A.m, &co = *o.m; bool e = x.r == o.x.r && x.c == o.x.c && x.v == o.x.v; if ((*A.m == *o.m) != e || (ca == co) != e || (*A.m == co) != e) fail("%s: equality with %s", at.c_str(), text(o.x).c_str()); }
				break; }
			default: { // determinant, adjoint, inverse
				if (R == 0) break;
				if (R != C) { if (A.m->determinante() != 0) fail("%s: determinant of a matrix that is not square", at.c_str()); matrix<T> i = A.m->invert(); same(i, x); break; }
				if (R > 6 || (R == 6 && !s.chance(1, 24))) break; // cost of the expansion
				double hi = 0, lo = 1e300; for (auto& r : x.v) for (double y : r) if (y != 0) { hi = std::max(hi, fabs(y)); lo = std::min(lo, fabs(y)); }
				if (hi > 0 && (pow(hi, R) > 1e30 || pow(lo, R) < 1e-30)) break; // the products leave the range of float
				long double d, mag; det_of(x, d, mag);
				if (!std::isfinite((double)mag) || (!real && mag > (std::is_same<T, float>::value ? 1.6e7 : 2e9))) break;
				double dt = real ? 8 * R * eps * (double)mag : 0, got = A.m->determinante();
				if (!(fabs(got - (double)d) <= dt)) fail("%s: determinant is %.9g, expected %.9g", at.c_str(), got, (double)d);
				Model adj = mk(R, R), amag = mk(R, R); tol = grid(R, R);
				for (int i = 0; i < R; ++i) for (int j = 0; j < R; ++j) { long double md, mm; det_of(minor_of(x, i, j), md, mm); adj.v[j][i] = (double)((i + j) % 2 ? -md : md); amag.v[j][i] = (double)mm; tol[j][i] = real ? 8 * R * eps * (double)mm : 0; }
				bool big = false; for (auto& r : amag.v) for (double y : r) if (!real && y > (std::is_same<T, float>::value ? 1.6e7 : 2e9)) big = true;
				if (big) break;
				matrix<T> ad = A.m->adjoint(); same(ad, adj, &tol);
				if (std::is_same<T, int>::value ? d != 0 && d != 1 && d != -1 : d != 0 && dt > 0.02 * fabs((double)d)) break;
				if (real && d == 0) break; // rounding decides whether a singular matrix is seen as one
				matrix<T> inv = A.m->invert();
				if (d == 0) { same(inv, x); break; }
				Model e = mk(R, R); const double ef = std::is_same<T, int>::value ? 0 : (double)std::numeric_limits<float>::epsilon();
				for (int i = 0; i < R; ++i) for (int j = 0; j < R; ++j) { e.v[i][j] = adj.v[i][j] / (double)d; tol[i][j] = 2 * tol[i][j] / fabs((double)d) + fabs(e.v[i][j]) * (4 * ef + 2 * dt / fabs((double)d)); }
				same(inv, e, &tol); used = used || R > 2; break; }
			}
			// every matrix still is what the model says; only the target may have changed
			for (size_t i = 0; i < pool.size(); ++i) {
				if (!(target && i == a)) { if (i < before.size() && !(before[i].v == pool[i].x.v)) fail("%s: model broken", at.c_str()); }
				same(*pool[i].m, pool[i].x);
			}
		}
		s.nt = used;
	}
};
static void c06(Src& s) {
	switch (s.strat(5)) {
	case 0: s.tag("int"); Env<int>(s, false).run(); break;
	case 1: s.tag("float, integral"); Env<float>(s, false).run(); break;
	case 2: s.tag("float"); Env<float>(s, true).run(); break;
	case 3: s.tag("double, integral"); Env<double>(s, false).run(); break;
	default: s.tag("double"); Env<double>(s, true).run(); break;
	}
}
PROPERTY("C06", c06, 80000, 3000000, "pools of int, float and double matrices of sizes 0x0 to 7x7 (often with equal, null or dependent rows and columns) under histories of up to 10 operations of the whole public interface, every result and every matrix of the pool compared with a model after each step; determinants up to 8x8; non-trivial: a product, sum, transposition or inverse of a matrix larger than 1x1 (non-square for transposition and product, 3x3 or larger for the inverse)");
