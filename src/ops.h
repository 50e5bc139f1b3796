// Uniform access to the library's operations on colours.
#pragma once
#include "lib.h"

// adding, mixing, subtracting, averaging; typed uses the overload of the concrete type (both colours of it)
Color* op_add(Color* a, Color* b, float w1, float w2, bool alpha, bool typed = false);
Color* op_mix(Color* a, Color* b, float w, bool alpha, bool typed = false);
Color* op_sub(Color* a, Color* b, float w, bool alpha, bool typed = false);
Color* op_average(int t, const std::vector<Color*>& cs, bool alpha);
Color* op_average_def(int t, const std::vector<Color*>& cs);
Color* op_add_def(Color* a, Color* b, bool typed = false);  // with the default arguments
Color* op_mix_def(Color* a, Color* b, bool typed = false);
Color* op_sub_def(Color* a, Color* b, bool typed = false);

enum { PD_SRC, PD_DEST, PD_ATOP, PD_DEST_ATOP, PD_OVER, PD_DEST_OVER, PD_IN, PD_DEST_IN, PD_OUT, PD_DEST_OUT, PD_XOR, PD_CLEAR, N_PD };
extern const char* const PD_NAME[];
Color* op_pd(int op, Color* s, Color* d);

enum { B_NORMAL, B_MULTIPLY, B_SCREEN, B_OVERLAY, B_DARKEN, B_LIGHTEN, B_CDODGE, B_LDODGE, B_CBURN, B_LBURN, B_HARD, B_SOFT, B_VIVID, B_LINEAR, B_PIN, B_HARDMIX, B_DIFF, B_SUB, B_DIV, B_PLUSL, B_PLUSD, B_EXCL, B_DISSOLVE, N_BLEND };
extern const char* const BLEND_NAME[];
Color* op_blend(int m, Color* s, Color* d, bool us, bool ud);
Color* op_blend_def(int m, Color* s, Color* d);
Color* op_custom(Color* s, Color* d, bool us, bool ud, std::function<float(float, float)> f);

enum { H_HUE, H_SAT, H_COLOR, H_LUM, N_HUE };
extern const char* const HUE_NAME[];
Color* op_hue(int m, Color* s, Color* d, bool us = true, bool ud = true);

Color* op_hue_def(int m, Color* s, Color* d);

typedef std::vector<Color*> Colors;
enum { K_TRIPLET, K_QUARTET, K_QUINTET, K_COMBINATION, K_COMPLEMENT, K_ANALOGOUS, K_SPLIT, K_MONO, N_COMB };
extern const char* const COMB_NAME[];
Colors op_comb(int k, Color* c, int n, float x, int mode); // n: number of colours, x: degrees or amount

enum { A_SAT_RGB, A_SAT_HSL, A_LUM_RGB, A_LUM_HSL, N_ADJ };
extern const char* const ADJ_NAME[];
Color* op_adj(int k, Color* c, float p);
void op_adj_inplace(int k, Color* c, float p);

enum { CA_VK, CA_BRAD_S, CA_SCALE, CA_SHARP, CA_97_S, CA_2000_S, CA_02_S, CA_BRAD, CA_97, CA_2000, CA_02, N_ADAPT };
extern const char* const ADAPT_NAME[];
struct AdaptArg { float f = 1, la = 100, lref = 100; int given = 3; }; // given: how many of the optional luminances are passed
Color* op_adapt(int m, Color* c, cs::white_point* w, const AdaptArg& a);

enum { D_EU_RGB2, D_EU_RGB, D_EU_LUV2, D_EU_LUV, D_WEIGHTED, D_76, D_94, D_00, D_CMC, N_DIST };
extern const char* const DIST_NAME[];
struct DistArg { bool defaults = true; float kL = 1, k1 = 0.045f, k2 = 0.015f, kC = 1, kH = 1, l = 2, c = 1; };
double op_dist(int k, Color* a, Color* b, const DistArg& p);
