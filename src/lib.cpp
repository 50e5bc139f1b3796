// Dispatch tables over the library's typed API (generated once, then kept by hand).
#include "core.h"
#include "lib.h"
#include <cmath>
#include <cstring>

const char* const TNAME[NT] = {"rgb_true", "rgb_deep", "grey_true", "grey_deep", "cmyk", "hsi", "hsv", "hsl", "hcy", "xyz", "xyy", "cieluv", "lab", "lch_ab", "lch_uv"};
const int NCOMP[NT] = {3, 3, 1, 1, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3};
#define AS(T) static_cast<cs::T*>(c)
Color* make(int t, const std::vector<float>& c, float a, RgbDef* d) {
	switch (t) {
	case 0: return new cs::rgb_truecolor(c[0], c[1], c[2], a * 255.f, d);
	case 1: return new cs::rgb_deepcolor(c[0], c[1], c[2], a, d);
	case 2: return new cs::grey_truecolor(c[0], a * 255.f, d);
	case 3: return new cs::grey_deepcolor(c[0], a, d);
	case 4: return new cs::cmyk(c[0], c[1], c[2], c[3], a, d);
	case 5: return new cs::hsi(c[0], c[1], c[2], a, d);
	case 6: return new cs::hsv(c[0], c[1], c[2], a, d);
	case 7: return new cs::hsl(c[0], c[1], c[2], a, d);
	case 8: return new cs::hcy(c[0], c[1], c[2], a, d);
	case 9: return new cs::xyz(c[0], c[1], c[2], a, d);
	case 10: return new cs::xyy(c[0], c[1], c[2], a, d);
	case 11: return new cs::cieluv(c[0], c[1], c[2], a, d);
	case 12: return new cs::lab(c[0], c[1], c[2], a, d);
	case 13: return new cs::lch_ab(c[0], c[1], c[2], a, d);
	case 14: return new cs::lch_uv(c[0], c[1], c[2], a, d);
	}
	return nullptr;
}
std::vector<float> named_get(Color* c) {
	switch ((int)c->get_color_type()) {
	case 0: return {AS(rgb_truecolor)->red(), AS(rgb_truecolor)->green(), AS(rgb_truecolor)->blue()};
	case 1: return {AS(rgb_deepcolor)->red(), AS(rgb_deepcolor)->green(), AS(rgb_deepcolor)->blue()};
	case 2: return {AS(grey_truecolor)->grey()};
	case 3: return {AS(grey_deepcolor)->grey()};
	case 4: return {AS(cmyk)->cyan(), AS(cmyk)->magenta(), AS(cmyk)->yellow(), AS(cmyk)->black()};
	case 5: return {AS(hsi)->hue(), AS(hsi)->saturation(), AS(hsi)->intensity()};
	case 6: return {AS(hsv)->hue(), AS(hsv)->saturation(), AS(hsv)->value()};
	case 7: return {AS(hsl)->hue(), AS(hsl)->saturation(), AS(hsl)->lightness()};
	case 8: return {AS(hcy)->hue(), AS(hcy)->chroma(), AS(hcy)->luma()};
	case 9: return {AS(xyz)->x(), AS(xyz)->y(), AS(xyz)->z()};
	case 10: return {AS(xyy)->x(), AS(xyy)->y(), AS(xyy)->Y()};
	case 11: return {AS(cieluv)->L(), AS(cieluv)->u(), AS(cieluv)->v()};
	case 12: return {AS(lab)->luminance(), AS(lab)->a(), AS(lab)->b()};
	case 13: return {AS(lch_ab)->luminance(), AS(lch_ab)->chroma(), AS(lch_ab)->hue()};
	case 14: return {AS(lch_uv)->luminance(), AS(lch_uv)->chroma(), AS(lch_uv)->hue()};
	}
	return {};
}
void named_set(Color* c, int i, float v) {
	switch ((int)c->get_color_type() * 10 + i) {
	case 0: AS(rgb_truecolor)->red(v); break;
	case 1: AS(rgb_truecolor)->green(v); break;
	case 2: AS(rgb_truecolor)->blue(v); break;
	case 10: AS(rgb_deepcolor)->red(v); break;
	case 11: AS(rgb_deepcolor)->green(v); break;
	case 12: AS(rgb_deepcolor)->blue(v); break;
	case 20: AS(grey_truecolor)->grey(v); break;
	case 30: AS(grey_deepcolor)->grey(v); break;
	case 40: AS(cmyk)->cyan(v); break;
	case 41: AS(cmyk)->magenta(v); break;
	case 42: AS(cmyk)->yellow(v); break;
	case 43: AS(cmyk)->black(v); break;
	case 50: AS(hsi)->hue(v); break;
	case 51: AS(hsi)->saturation(v); break;
	case 52: AS(hsi)->intensity(v); break;
	case 60: AS(hsv)->hue(v); break;
	case 61: AS(hsv)->saturation(v); break;
	case 62: AS(hsv)->value(v); break;
	case 70: AS(hsl)->hue(v); break;
	case 71: AS(hsl)->saturation(v); break;
	case 72: AS(hsl)->lightness(v); break;
	case 80: AS(hcy)->hue(v); break;
	case 81: AS(hcy)->chroma(v); break;
	case 82: AS(hcy)->luma(v); break;
	case 90: AS(xyz)->x(v); break;
	case 91: AS(xyz)->y(v); break;
	case 92: AS(xyz)->z(v); break;
	case 100: AS(xyy)->x(v); break;
	case 101: AS(xyy)->y(v); break;
	case 102: AS(xyy)->Y(v); break;
	case 110: AS(cieluv)->L(v); break;
	case 111: AS(cieluv)->u(v); break;
	case 112: AS(cieluv)->v(v); break;
	case 120: AS(lab)->luminance(v); break;
	case 121: AS(lab)->a(v); break;
	case 122: AS(lab)->b(v); break;
	case 130: AS(lch_ab)->luminance(v); break;
	case 131: AS(lch_ab)->chroma(v); break;
	case 132: AS(lch_ab)->hue(v); break;
	case 140: AS(lch_uv)->luminance(v); break;
	case 141: AS(lch_uv)->chroma(v); break;
	case 142: AS(lch_uv)->hue(v); break;
	}
}
Color* copy_typed(Color* c) {
	switch ((int)c->get_color_type()) {
	case 0: return new cs::rgb_truecolor(*AS(rgb_truecolor));
	case 1: return new cs::rgb_deepcolor(*AS(rgb_deepcolor));
	case 2: return new cs::grey_truecolor(*AS(grey_truecolor));
	case 3: return new cs::grey_deepcolor(*AS(grey_deepcolor));
	case 4: return new cs::cmyk(*AS(cmyk));
	case 5: return new cs::hsi(*AS(hsi));
	case 6: return new cs::hsv(*AS(hsv));
	case 7: return new cs::hsl(*AS(hsl));
	case 8: return new cs::hcy(*AS(hcy));
	case 9: return new cs::xyz(*AS(xyz));
	case 10: return new cs::xyy(*AS(xyy));
	case 11: return new cs::cieluv(*AS(cieluv));
	case 12: return new cs::lab(*AS(lab));
	case 13: return new cs::lch_ab(*AS(lch_ab));
	case 14: return new cs::lch_uv(*AS(lch_uv));
	}
	return nullptr;
}
Color* copy_from_base(int t, const Color& c) {
	switch (t) {
	case 0: return new cs::rgb_truecolor(c);
	case 1: return new cs::rgb_deepcolor(c);
	case 2: return new cs::grey_truecolor(c);
	case 3: return new cs::grey_deepcolor(c);
	case 4: return new cs::cmyk(c);
	case 5: return new cs::hsi(c);
	case 6: return new cs::hsv(c);
	case 7: return new cs::hsl(c);
	case 8: return new cs::hcy(c);
	case 9: return new cs::xyz(c);
	case 10: return new cs::xyy(c);
	case 11: return new cs::cieluv(c);
	case 12: return new cs::lab(c);
	case 13: return new cs::lch_ab(c);
	case 14: return new cs::lch_uv(c);
	}
	return nullptr;
}
void assign_typed(Color* c, Color* s) {
	switch ((int)c->get_color_type()) {
	case 0: *AS(rgb_truecolor) = *static_cast<cs::rgb_truecolor*>(s); break;
	case 1: *AS(rgb_deepcolor) = *static_cast<cs::rgb_deepcolor*>(s); break;
	case 2: *AS(grey_truecolor) = *static_cast<cs::grey_truecolor*>(s); break;
	case 3: *AS(grey_deepcolor) = *static_cast<cs::grey_deepcolor*>(s); break;
	case 4: *AS(cmyk) = *static_cast<cs::cmyk*>(s); break;
	case 5: *AS(hsi) = *static_cast<cs::hsi*>(s); break;
	case 6: *AS(hsv) = *static_cast<cs::hsv*>(s); break;
	case 7: *AS(hsl) = *static_cast<cs::hsl*>(s); break;
	case 8: *AS(hcy) = *static_cast<cs::hcy*>(s); break;
	case 9: *AS(xyz) = *static_cast<cs::xyz*>(s); break;
	case 10: *AS(xyy) = *static_cast<cs::xyy*>(s); break;
	case 11: *AS(cieluv) = *static_cast<cs::cieluv*>(s); break;
	case 12: *AS(lab) = *static_cast<cs::lab*>(s); break;
	case 13: *AS(lch_ab) = *static_cast<cs::lch_ab*>(s); break;
	case 14: *AS(lch_uv) = *static_cast<cs::lch_uv*>(s); break;
	}
}
Color* convert(Color* c, int t) { BEFORE(c, nullptr, convert(x_, t)); return cm::color_converter::convertTo(c, ct(t)); }
Color* to_generic(Color* c, int t) {
	BEFORE(c, nullptr, to_generic(x_, t));
	switch (t) {
	case 0: return cm::color_converter::to_rgb_true(c);
	case 1: return cm::color_converter::to_rgb_deep(c);
	case 2: return cm::color_converter::to_grey_true(c);
	case 3: return cm::color_converter::to_grey_deep(c);
	case 4: return cm::color_converter::to_cmyk(c);
	case 5: return cm::color_converter::to_hsi(c);
	case 6: return cm::color_converter::to_hsv(c);
	case 7: return cm::color_converter::to_hsl(c);
	case 8: return cm::color_converter::to_hcy(c);
	case 9: return cm::color_converter::to_xyz(c);
	case 10: return cm::color_converter::to_xyy(c);
	case 11: return cm::color_converter::to_cieluv(c);
	case 12: return cm::color_converter::to_lab(c);
	case 13: return cm::color_converter::to_lch_ab(c);
	case 14: return cm::color_converter::to_lch_uv(c);
	}
	return nullptr;
}

double lo_of(int t, int i) {
	if (t == LUVt && i > 0) return -100;
	if (t == LABt && i > 0) return -128;
	return 0;
}
double hi_of(int t, int i) {
	if (is_true(t)) return 255;
	if (t == RGBD || t == GD || t == CMYKt) return 1;
	if (is_hsx(t)) return i == 0 ? 359 : 1;
	if (t == LABt && i > 0) return 128;
	if ((t == LCHAB || t == LCHUV) && i == 2) return 359;
	return 100;
}
bool operator==(const Val& x, const Val& y) {
	// the alpha of true colours goes through a scale of 255: an ulp lost on the way is no change
	if (!(fabsf(x.a - y.a) <= 4e-7f * std::max(fabsf(x.a), fabsf(y.a)) || (std::isnan(x.a) && std::isnan(y.a)))) return false;
	return x.t == y.t && x.d == y.d && x.c.size() == y.c.size() && (x.c.empty() || memcmp(x.c.data(), y.c.data(), 4 * x.c.size()) == 0);
}
std::string show(const Val& v) {
	std::string s = v.t >= 0 && v.t < NT ? TNAME[v.t] : fmt("type%d", v.t);
	s += "(";
	for (size_t i = 0; i < v.c.size(); ++i) s += fmt("%s%.9g", i ? "," : "", v.c[i]);
	return s + fmt(" a=%.9g)", v.a);
}
std::string show(const Color* c) { return c ? show(snap(c)) : "null"; }
Val snap(const Color* c) {
	Val v; v.t = (int)c->get_color_type(); v.c = c->get_component_vector(); v.a = c->alpha(); if (is_true(v.t)) v.a /= 255.f; v.d = c->get_rgb_color_space(); return v;
}
bool throws(const std::function<void()>& f, std::string* what) {
	try { f(); return false; }
	catch (const Fail&) { throw; }
	catch (const Discard&) { throw; }
	catch (std::exception* e) { if (what) *what = e->what(); return true; }
	catch (const std::exception& e) { if (what) *what = e.what(); return true; }
	catch (...) { if (what) *what = "?"; return true; }
}
void check_valid(const Color* c, const char* what) {
	if (!c) fail("%s: no colour returned", what);
	int t = (int)c->get_color_type();
	if (t < 0 || t >= NT) fail("%s: result has undefined type %d", what, t);
	Val v = snap(c);
	if ((int)v.c.size() != NCOMP[t]) fail("%s: %s has %zu components", what, TNAME[t], v.c.size());
	for (int i = 0; i < NCOMP[t]; ++i)
		if (!(v.c[i] >= lo_of(t, i) && v.c[i] <= hi_of(t, i))) fail("%s: component %d of %s is outside [%g,%g]", what, i, show(v).c_str(), lo_of(t, i), hi_of(t, i));
	if (!(v.a >= 0 && v.a <= 1)) fail("%s: alpha of %s is outside [0,1]", what, show(v).c_str());
	if (!v.d) fail("%s: %s has no RGB space", what, show(v).c_str());
}

bool prelude_due() { return g_src && g_src->chance(1, 24); }
RgbDef* preset_def(int i);
extern const int N_PRESET_DEF;
cs::white_point* g_near_white(Src& s, cs::white_point* w);
RgbDef* g_related(Src& s, RgbDef* d);
void prelude(Color* a, Color* b, const std::function<void(Color*, Color*)>& f) {
	Src* s = g_src; if (!a) return;
	struct Off { Src* s; Off(Src* q) : s(q) { g_src = nullptr; } ~Off() { g_src = s; } } off(s);
	int n = s->range(1, 2); s->tag("call preceded by a similar one");
	for (int i = 0; i < n; ++i) {
		Val x = snap(a), y = b ? snap(b) : x; bool one = b && x.d == y.d;
		auto vary = [&](Val& v) {
			uint32_t what = s->draw(8);
			if (what < 4) { int j = (int)s->draw((uint32_t)NCOMP[v.t]); v.c[j] = (float)(lo_of(v.t, j) + (hi_of(v.t, j) - lo_of(v.t, j)) * s->draw(9) / 8.0); }
			else if (what == 4) v.a = s->draw(9) / 8.f;
			else if (what == 5) v.d = preset_def((int)s->draw((uint32_t)N_PRESET_DEF));
			else if (what == 6) v.d = g_related(*s, v.d);
			else { v.d = s->flip() ? g_related(*s, v.d) : preset_def((int)s->draw((uint32_t)N_PRESET_DEF)); v.a = v.a > 0.5f ? 0.25f : 0.75f; }
		};
		if (!b || s->draw(3) != 2) vary(x);
		if (b && s->flip()) vary(y);
		if (one) y.d = x.d;
		Color *p = nullptr, *q = nullptr; try { p = make(x); q = !b ? nullptr : b == a ? p : make(y); } catch (...) { continue; }
		uint32_t where = s->draw(4);
		if (where == 2) { // on the same objects, which hold other values for the time being
			cs::color_base sa(*a), sb(b ? *b : *a);
			*a = *p; if (b && b != a) *b = *q;
			try { f(a, b); } catch (const Fail&) { throw; } catch (...) {}
			*a = sa; if (b && b != a) *b = sb;
			continue;
		}
		if (where == 3) { // on the same objects, whose RGB space has another curve or white for the time being
			RgbDef *d = a->get_rgb_color_space(), *e = preset_def((int)s->draw((uint32_t)N_PRESET_DEF)), keep(*d); uint32_t what = s->draw(3); cs::color_base sa(*a), sb(b ? *b : *a);
			if (what != 1) d->set_gamma_curve(e->get_gamma_curve());
			if (what != 0) d->set_white_point(s->flip() ? g_near_white(*s, d->get_white_point()) : e->get_white_point());
			try { f(a, b); } catch (const Fail&) { *d = keep; throw; } catch (...) {}
			*d = keep; *a = sa; if (b && b != a) *b = sb;
			continue;
		}
		try { f(p, q); } catch (const Fail&) { throw; } catch (...) {}
	}
}
