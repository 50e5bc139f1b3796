// Generators. The simplest choice (0) of every generator is the most ordinary value.
#pragma once
#include "core.h"
#include "ref.h"

float g_unit(Src& s);                 // [0,1], biased to nice values, 8-bit values, borders
float g_wild(Src& s);                 // any float: ordinary, huge, tiny, negative, infinite, NaN
float g_hue(Src& s);                  // [0,359], biased to sector borders
float g_alpha(Src& s);                // [0,1]
V3 g_rgb(Src& s);                     // correlated rgb in [0,1]
struct DefGen { RgbDef* d; std::string name; };
DefGen g_other(Src& s, const DefGen& g); // another space: an independent one, or one that differs from g in one thing only
DefGen g_def(Src& s);                 // preset, custom primaries/white/gamma
RgbDef* preset_def(int i);            // 0..19
extern const int N_PRESET_DEF;
extern const char* const PRESET_DEF_NAME[];
Curve preset_curve(int i);
cs::white_point* g_white(Src& s);     // preset or custom, plausible
cs::white_point* g_near_white(Src& s, cs::white_point* w); // shares its chromaticity, its luminance or nearly all of it with w
RgbDef* g_related(Src& s, RgbDef* d);          // another space that differs from d in its white, its curve or one primary only
Val g_color(Src& s, int t, RgbDef* d);          // valid colour of type t; CIE types mostly in gamut
Val g_full(Src& s, int t, RgbDef* d);           // anywhere in the type's range
Val g_in_gamut(Src& s, int t, RgbDef* d, V3* rgb = nullptr);  // image of an RGB colour (float-rounded)
inline int g_type(Src& s) { static const int order[NT] = {1, 0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}; return order[s.draw(NT)]; }
