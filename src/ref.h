// Double-precision reference of the published formulas. Shares no code with the library.
#pragma once
#include "lib.h"
#include <array>

typedef std::array<double, 3> V3;
typedef std::array<V3, 3> M3;
V3 mul(const M3& m, const V3& v);
M3 inverse(const M3& m);
double clampd(double v, double lo, double hi);
inline double clamp1(double v) { return clampd(v, 0, 1); }

struct Curve {   // gamma curve: enc linear->encoded, dec encoded->linear; borders where the formula switches
	std::function<double(double)> enc, dec;
	double enc_border = -1, dec_border = -1;
};
Curve curve_power(double g);
Curve curve_srgb(), curve_romm(), curve_uhdtv(), curve_identity();
Curve curve_piecewise(double g, double k); // sRGB-like, continuous

struct Space {
	V3 white;          // tristimulus
	double wx, wy;     // chromaticity
	M3 m, mi;
	Curve g;
};
void register_curve(RgbDef* d, const Curve& c);
Space space_of(RgbDef* d);   // from the definition's primaries and white point, in double

// A colour in double precision; components in the library's units, alpha in [0,1]
struct DV {
	int t = 0;
	std::array<double, 4> c{{0, 0, 0, 0}};
	double a = 1;
	RgbDef* d = nullptr;
};
std::string show(const DV& v);
DV dv(const Val& v);
DV dv(int t, double x, double y, double z, double a, RgbDef* d);
Val to_val(const DV& v);   // rounded to float and limited

double rgb_hue(const V3& rgb);                      // [0,360)
V3 dev_to_rgb(int t, const std::array<double, 4>& c);   // device type -> deep RGB, limited to [0,1]
DV rgb_to_dev(int t, const V3& rgb, double a, RgbDef* d);
double lum601(const V3& c);
double chroma_of(int t, const std::array<double, 4>& c);  // max-min of the rgb of a device colour
V3 lin_of(const Space& s, const V3& rgb);           // decode
V3 rgb_to_xyz(const Space& s, const V3& rgb);
V3 xyz_to_lin(const Space& s, const V3& xyz);
V3 xyz_to_rgb(const Space& s, const V3& xyz);
V3 xyz_to_xyy(const Space& s, const V3& xyz);
V3 xyy_to_xyz(const V3& v);
V3 xyz_to_lab(const Space& s, const V3& xyz);
V3 lab_to_xyz(const Space& s, const V3& lab);
V3 xyz_to_luv(const Space& s, const V3& xyz);
V3 luv_to_xyz(const Space& s, const V3& luv);
V3 ab_to_lch(const V3& v);
V3 lch_to_ab(const V3& v);

// Reference conversion over any pair of types (limits applied like the types document, no 8-bit rounding on the way).
DV ref_convert(const Space& s, const DV& v, int to);
void limit(DV& v);

// Compares a library colour with the reference. eps is in units of the deep RGB cube for device types and of
// the components for the CIE types; ill-conditioned components (hue of a grey, saturation of black) are weighted.
bool near_val(const Val& act, const DV& exp, double eps, std::string& why, double eps_alpha = 2e-6);
void expect_near(const Val& act, const DV& exp, double eps, const char* what, double eps_alpha = 2e-6);
bool hue_close(double act, double exp, double tol);

// The library colour must be the image, converted by the formulas, of some colour within tol of base (per component,
// limited to its type); eps is the accuracy of the conversion itself in the units of near_val. 8-bit targets are rounded.
void expect_image(const Space& s, const Val& act, const DV& base, const std::array<double, 4>& tol, double eps, const char* what, double eps_alpha = 2e-6);
void near_tolerances(const DV& exp, double eps, double* tol);
