// Uniform access to the library's public API.
#pragma once
#include "stdafx.h"
#include "spaces/color_base.h"
#include "spaces/rgb_truecolor.h"
#include "spaces/rgb_deepcolor.h"
#include "spaces/grey_truecolor.h"
#include "spaces/grey_deepcolor.h"
#include "spaces/cmyk.h"
#include "spaces/hsi.h"
#include "spaces/hsv.h"
#include "spaces/hsl.h"
#include "spaces/hcy.h"
#include "spaces/xyz.h"
#include "spaces/xyy.h"
#include "spaces/cieluv.h"
#include "spaces/lab.h"
#include "spaces/lch_ab.h"
#include "spaces/lch_uv.h"
#include "spaces/gamma.h"
#include "spaces/white_point.h"
#include "spaces/rgb_color_space_definition.h"
#include "manipulation/color_converter.h"
#include <functional>
#include <string>
#include <vector>

namespace cs = color_space;
namespace cm = color_manipulation;
typedef cs::color_base Color;
typedef cs::rgb_color_space_definition RgbDef;

const int NT = 15; // colour types 0..14 in enum order
enum { RGBT, RGBD, GT, GD, CMYKt, HSIt, HSVt, HSLt, HCYt, XYZt, XYYt, LUVt, LABt, LCHAB, LCHUV };
inline color_type ct(int t) { return (color_type)t; }
extern const char* const TNAME[NT];
extern const int NCOMP[NT];
inline bool is_true(int t) { return t == RGBT || t == GT; }
inline bool is_hsx(int t) { return t == HSIt || t == HSVt || t == HSLt || t == HCYt; }
inline bool is_device(int t) { return t <= HCYt; }
inline int hue_index(int t) { return is_hsx(t) ? 0 : t == LCHAB || t == LCHUV ? 2 : -1; }
// documented range of component i of type t
double lo_of(int t, int i);
double hi_of(int t, int i);

// A colour as plain data: components, alpha in [0,1]
struct Val {
	int t = 0;
	std::vector<float> c;
	float a = 1;
	RgbDef* d = nullptr;
};
bool operator==(const Val& x, const Val& y);
std::string show(const Val& v);
std::string show(const Color* c);

Color* make(int t, const std::vector<float>& c, float alpha01, RgbDef* d);
inline Color* make(const Val& v) { return make(v.t, v.c, v.a, v.d); }
Val snap(const Color* c);           // reads everything through virtual getters; alpha normalised to [0,1]
std::vector<float> named_get(Color* c);            // components through the named accessors
void named_set(Color* c, int i, float v);          // component i through the named setter
Color* copy_typed(Color* c);                       // copy constructor of the concrete type
Color* copy_from_base(int t, const Color& c);      // generic constructor of type t from a base reference
void assign_typed(Color* dst, Color* src);         // assignment operator of the concrete type (same types)
Color* to_generic(Color* c, int t);                // color_converter::to_<t>
Color* convert(Color* c, int t);

// Runs f; true if it threw anything, the message in what.
bool throws(const std::function<void()>& f, std::string* what = nullptr);
// checks that a value is a number in its type's range, alpha in [0,1], RGB space set
void check_valid(const Color* c, const char* what);

// Now and then a call is preceded by the same call on similar colours (one component, the alpha or the RGB space
// another), whose result is ignored: no call may depend on what was called before.
bool prelude_due();
void prelude(Color* a, Color* b, const std::function<void(Color*, Color*)>& f);
#define BEFORE(a, b, call) if (prelude_due()) prelude(a, b, [&](Color* x_, Color* y_) { call; })
