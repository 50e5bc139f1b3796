#include "ops.h"
#include "core.h"
#include "manipulation/color_calculation.h"
#include "manipulation/porter_duff.h"
#include "manipulation/color_blend.h"
#include "manipulation/color_combinations.h"
#include "manipulation/color_adjustments.h"
#include "manipulation/color_distance.h"
#include "manipulation/chromatic_adaptation.h"

typedef cm::color_calculation Calc;
#define TYPES(X) X(RGBT, rgb_truecolor, rgb_true) X(RGBD, rgb_deepcolor, rgb_deep) X(GT, grey_truecolor, grey_true) X(GD, grey_deepcolor, grey_deep) X(CMYKt, cmyk, cmyk) X(HSIt, hsi, hsi) X(HSVt, hsv, hsv) X(HSLt, hsl, hsl) X(HCYt, hcy, hcy) X(XYZt, xyz, xyz) X(XYYt, xyy, xyy) X(LUVt, cieluv, cieluv) X(LABt, lab, lab) X(LCHAB, lch_ab, lch_ab) X(LCHUV, lch_uv, lch_uv)
#define P(c, T) static_cast<cs::T*>(c)
#define DISPATCH(F, ...) switch ((int)a->get_color_type()) { TYPES(F) } return nullptr;

Color* op_add(Color* a, Color* b, float w1, float w2, bool al, bool typed) { BEFORE(a, b, op_add(x_, y_, w1, w2, al, typed));
	if (!typed) return Calc::add(a, b, w1, w2, al);
#define F(E, T, N) case E: return Calc::add(P(a, T), P(b, T), w1, w2, al);
	DISPATCH(F)
#undef F
}
Color* op_mix(Color* a, Color* b, float w, bool al, bool typed) { BEFORE(a, b, op_mix(x_, y_, w, al, typed));
	if (!typed) return Calc::mix(a, b, w, al);
#define F(E, T, N) case E: return Calc::mix(P(a, T), P(b, T), w, al);
	DISPATCH(F)
#undef F
}
Color* op_sub(Color* a, Color* b, float w, bool al, bool typed) { BEFORE(a, b, op_sub(x_, y_, w, al, typed));
	if (!typed) return Calc::subtract(a, b, w, al);
#define F(E, T, N) case E: return Calc::subtract(P(a, T), P(b, T), w, al);
	DISPATCH(F)
#undef F
}
Color* op_add_def(Color* a, Color* b, bool typed) {
	if (!typed) return Calc::add(a, b);
#define F(E, T, N) case E: return Calc::add(P(a, T), P(b, T));
	DISPATCH(F)
#undef F
}
Color* op_mix_def(Color* a, Color* b, bool typed) {
	if (!typed) return Calc::mix(a, b);
#define F(E, T, N) case E: return Calc::mix(P(a, T), P(b, T));
	DISPATCH(F)
#undef F
}
Color* op_sub_def(Color* a, Color* b, bool typed) {
	if (!typed) return Calc::subtract(a, b);
#define F(E, T, N) case E: return Calc::subtract(P(a, T), P(b, T));
	DISPATCH(F)
#undef F
}
Color* op_average(int t, const std::vector<Color*>& v, bool al) { BEFORE(v.empty() ? nullptr : v[0], nullptr, std::vector<Color*> u(v); u[0] = x_; op_average(t, u, al));
	switch (t) {
#define F(E, T, N) case E: { std::vector<cs::T*> x; for (Color* c : v) x.push_back(P(c, T)); return Calc::average_##N(x, al); }
	TYPES(F)
#undef F
	}
	return nullptr;
}
Color* op_average_def(int t, const std::vector<Color*>& v) {
	switch (t) {
#define F(E, T, N) case E: { std::vector<cs::T*> x; for (Color* c : v) x.push_back(P(c, T)); return Calc::average_##N(x); }
	TYPES(F)
#undef F
	}
	return nullptr;
}

const char* const PD_NAME[] = {"src", "dest", "atop", "dest_atop", "over", "dest_over", "in", "dest_in", "out", "dest_out", "x_or", "clear"};
Color* op_pd(int op, Color* s, Color* d) { BEFORE(s, d, op_pd(op, x_, y_));
	typedef cm::porter_duff PD;
	static Color* (*const f[])(Color*, Color*) = {PD::src, PD::dest, PD::atop, PD::dest_atop, PD::over, PD::dest_over, PD::in, PD::dest_in, PD::out, PD::dest_out, PD::x_or, PD::clear};
	return f[op](s, d);
}
typedef cm::color_blend CB;
const char* const BLEND_NAME[] = {"normal", "multiply", "screen", "overlay", "darken", "lighten", "color_dodge", "linear_dodge", "color_burn", "linear_burn", "hard_light", "soft_light", "vivid_light", "linear_light", "pin_light", "hard_mix", "difference", "subtract", "divide", "plus_lighter", "plus_darker", "exclusion", "dissolve"};
static Color* (*const BLENDS[])(Color*, Color*, bool, bool) = {CB::normal, CB::multiply, CB::screen, CB::overlay, CB::darken, CB::lighten, CB::color_dodge, CB::linear_dodge, CB::color_burn, CB::linear_burn, CB::hard_light, CB::soft_light, CB::vivid_light, CB::linear_light, CB::pin_light, CB::hard_mix, CB::difference, CB::subtract, CB::divide, CB::plus_lighter, CB::plus_darker, CB::exclusion, CB::dissolve};
Color* op_blend(int m, Color* s, Color* d, bool us, bool ud) { BEFORE(s, d, op_blend(m, x_, y_, us, ud)); return BLENDS[m](s, d, us, ud); }
Color* op_blend_def(int m, Color* s, Color* d) {
	switch (m) {
	case B_NORMAL: return CB::normal(s, d); case B_MULTIPLY: return CB::multiply(s, d); case B_SCREEN: return CB::screen(s, d); case B_OVERLAY: return CB::overlay(s, d);
	case B_DARKEN: return CB::darken(s, d); case B_LIGHTEN: return CB::lighten(s, d); case B_CDODGE: return CB::color_dodge(s, d); case B_LDODGE: return CB::linear_dodge(s, d);
	case B_CBURN: return CB::color_burn(s, d); case B_LBURN: return CB::linear_burn(s, d); case B_HARD: return CB::hard_light(s, d); case B_SOFT: return CB::soft_light(s, d);
	case B_VIVID: return CB::vivid_light(s, d); case B_LINEAR: return CB::linear_light(s, d); case B_PIN: return CB::pin_light(s, d); case B_HARDMIX: return CB::hard_mix(s, d);
	case B_DIFF: return CB::difference(s, d); case B_SUB: return CB::subtract(s, d); case B_DIV: return CB::divide(s, d); case B_PLUSL: return CB::plus_lighter(s, d);
	case B_PLUSD: return CB::plus_darker(s, d); case B_EXCL: return CB::exclusion(s, d); case B_DISSOLVE: return CB::dissolve(s, d);
	}
	return nullptr;
}
Color* op_custom(Color* s, Color* d, bool us, bool ud, std::function<float(float, float)> f) { return CB::custom_componentwise_blend(s, d, us, ud, f); }
const char* const HUE_NAME[] = {"hue", "saturation", "color", "luminosity"};
Color* op_hue(int m, Color* s, Color* d, bool us, bool ud) { BEFORE(s, d, op_hue(m, x_, y_, us, ud));
	static Color* (*const f[])(Color*, Color*, bool, bool) = {CB::hue, CB::saturation, CB::color, CB::luminosity};
	return f[m](s, d, us, ud);
}
Color* op_hue_def(int m, Color* s, Color* d) { return m == H_HUE ? CB::hue(s, d) : m == H_SAT ? CB::saturation(s, d) : m == H_COLOR ? CB::color(s, d) : CB::luminosity(s, d); }

const char* const COMB_NAME[] = {"triplet", "quartet", "quintet", "combination", "complimentary", "analogous", "complimentary split", "monochromatic"};
Colors op_comb(int k, Color* c, int n, float x, int mode) { BEFORE(c, nullptr, op_comb(k, x_, n, x, mode));
	typedef cm::color_combinations CC;
	switch (k) {
	case K_TRIPLET: return CC::create_triplet(c);
	case K_QUARTET: return CC::create_quartet(c);
	case K_QUINTET: return CC::create_quintet(c);
	case K_COMBINATION: return CC::create_combination(c, n);
	case K_COMPLEMENT: return {CC::create_complimentary(c)};
	case K_ANALOGOUS: return CC::create_analogous(c, x);
	case K_SPLIT: return CC::create_complimentary_split(c, x);
	case K_MONO: return CC::create_monochromatic(c, mode, x, n);
	}
	return {};
}
const char* const ADJ_NAME[] = {"saturate_in_rgb_space", "saturate_in_hsl_space", "luminate_in_rgb_space", "luminate_in_hsl_space"};
typedef cm::color_adjustments CAd;
Color* op_adj(int k, Color* c, float p) { BEFORE(c, nullptr, op_adj(k, x_, p));
	switch (k) { case A_SAT_RGB: return CAd::saturate_in_rgb_space(c, p); case A_SAT_HSL: return CAd::saturate_in_hsl_space(c, p); case A_LUM_RGB: return CAd::luminate_in_rgb_space(c, p); case A_LUM_HSL: return CAd::luminate_in_hsl_space(c, p); }
	return nullptr;
}
void op_adj_inplace(int k, Color* c, float p) { BEFORE(c, nullptr, op_adj_inplace(k, x_, p));
	switch (k) { case A_SAT_RGB: CAd::saturate_in_rgb_space(*c, p); break; case A_SAT_HSL: CAd::saturate_in_hsl_space(*c, p); break; case A_LUM_RGB: CAd::luminate_in_rgb_space(*c, p); break; case A_LUM_HSL: CAd::luminate_in_hsl_space(*c, p); break; }
}
const char* const ADAPT_NAME[] = {"von_kries", "bradford_simplified", "xyz_scale", "sharp", "cmccat97_simplified", "cmccat2000_simplified", "cat02_simplified", "bradford", "cmccat97", "cmccat2000", "cat02"};
Color* op_adapt(int m, Color* c, cs::white_point* w, const AdaptArg& a) { BEFORE(c, nullptr, op_adapt(m, x_, w, a));
	typedef cm::chromatic_adaptation CA;
	switch (m) {
	case CA_VK: return CA::von_kries_adaptation(c, w);
	case CA_BRAD_S: return CA::bradford_adaptation_simplified(c, w);
	case CA_SCALE: return CA::xyz_scale_adaptation(c, w);
	case CA_SHARP: return CA::sharp_adaptation(c, w);
	case CA_97_S: return CA::cmccat97_adaptation_simplified(c, w);
	case CA_2000_S: return CA::cmccat2000_adaptation_simplified(c, w);
	case CA_02_S: return CA::cat02_adaptation_simplified(c, w);
	case CA_BRAD: return CA::bradford_adaptation(c, w);
	case CA_97: return a.given == 0 ? CA::cmccat97_adaptation(c, w, a.f) : CA::cmccat97_adaptation(c, w, a.f, a.la);
	case CA_2000: return a.given == 0 ? CA::cmccat2000_adaptation(c, w, a.f) : a.given == 1 ? CA::cmccat2000_adaptation(c, w, a.f, a.la) : CA::cmccat2000_adaptation(c, w, a.f, a.la, a.lref);
	case CA_02: return a.given == 0 ? CA::cat02_adaptation(c, w, a.f) : CA::cat02_adaptation(c, w, a.f, a.la);
	}
	return nullptr;
}
const char* const DIST_NAME[] = {"euclidean_distance_squared", "euclidean_distance", "euclidean_distance_squared(cieluv)", "euclidean_distance(cieluv)", "euclidean_distance_weighted", "cielab_delta_e_cie76", "cielab_delta_e_cie94", "cielab_delta_e_cie00", "cmc_delta_e_lc84"};
double op_dist(int k, Color* a, Color* b, const DistArg& p) { BEFORE(a, b, op_dist(k, x_, y_, p));
	typedef cm::color_distance CD;
	switch (k) {
	case D_EU_RGB2: return p.defaults ? CD::euclidean_distance_squared(a, b) : CD::euclidean_distance_squared(a, b, color_type::RGB_DEEP);
	case D_EU_RGB: return p.defaults ? CD::euclidean_distance(a, b) : CD::euclidean_distance(a, b, color_type::RGB_DEEP);
	case D_EU_LUV2: return CD::euclidean_distance_squared(a, b, color_type::CIELUV);
	case D_EU_LUV: return CD::euclidean_distance(a, b, color_type::CIELUV);
	case D_WEIGHTED: return CD::euclidean_distance_weighted(a, b);
	case D_76: return CD::cielab_delta_e_cie76(a, b);
	case D_94: return p.defaults ? CD::cielab_delta_e_cie94(a, b) : CD::cielab_delta_e_cie94(a, b, p.kL, p.k1, p.k2, p.kC, p.kH);
	case D_00: return p.defaults ? CD::cielab_delta_e_cie00(a, b) : CD::cielab_delta_e_cie00(a, b, p.kL, p.k1, p.k2, p.kC, p.kH);
	case D_CMC: return p.defaults ? CD::cmc_delta_e_lc84(a, b) : CD::cmc_delta_e_lc84(a, b, p.l, p.c);
	}
	return 0;
}
