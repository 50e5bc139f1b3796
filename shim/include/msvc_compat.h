// Force-included (-include) in every file of the Linux build, to bridge what MSVC's C and C++
// library offers and glibc/libstdc++ 13 does not.
#pragma once
// glibc's <math.h> declares ::gamma(double), which collides with color_space::gamma after
// "using namespace color_space". Nothing here calls it.
#define gamma glibc_gamma
#include <cmath>
#include <math.h>
#undef gamma
#include <stdio.h>

namespace std
{
using ::fabsf;
using ::fmaxf;
using ::fminf;
using ::fmodf;
using ::powf;
using ::sqrtf;
using ::sinf;
using ::cosf;
using ::tanf;
using ::asinf;
using ::acosf;
using ::atanf;
using ::atan2f;
using ::expf;
using ::logf;
using ::log10f;
using ::floorf;
using ::ceilf;
using ::roundf;
using ::cbrtf;
}

// The same thing for the numeric conversions that ColorMagic uses (%x).
#define sscanf_s sscanf
