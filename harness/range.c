// No disparity, in any bit pattern, gives a range which is not a number or not finite
#include <math.h>
#include <stdio.h>
#include "mrcal.h"
#include "stereo.h"
#include "vh.h"
#ifdef __CPROVER
double sin(double x) { double r = nondet_double(); if(!(x-x == 0.)) return NAN; __CPROVER_assume(r >= -1. && r <= 1. && (r != 0. || x == 0.)); return r; }
double cos(double x) { double r = nondet_double(); if(!(x-x == 0.)) return NAN; __CPROVER_assume(r >= -1. && r <= 1.); return r; }
double sqrt(double x) { double r = nondet_double(); if(!(x >= 0.)) return x == 0. ? x : NAN; if(x == INFINITY) return x; __CPROVER_assume(x > 0. ? (r > 0. && r < 1e200) : r == 0.); return r; }
int __builtin_isfinite(double x) { return x-x == 0.; }
int fprintf(FILE* f, const char* fmt, ...) { return 0; }
#endif
static bool fin(double x) { return x-x == 0.; }
HARNESS(range_sparse)
{
    INPUT(double,d); INPUT(double,qx); INPUT(double,qy); INPUT(double,fx); INPUT(double,fy); INPUT(double,cx); INPUT(double,cy);
    INPUT(double,baseline); INPUT(double,dmin); INPUT(double,dmax); INPUT_BOOL(latlon);
    mrcal_point2_t q = {.x=qx,.y=qy}; double f[4] = {fx,fy,cx,cy}, r = -7.;
    bool ok = mrcal_stereo_range_sparse(&r, &d, &q, 1, dmin, dmax, latlon ? MRCAL_LENSMODEL_LATLON : MRCAL_LENSMODEL_PINHOLE, f, baseline);
    if(ok)
    {
        CHECK(fin(r), "the range is finite");
        if(!fin(d) || d <= 0. || d < dmin || d > dmax) CHECK(r == 0., "an invalid disparity has no range");
        CHECK(!(dmin >= dmax), "an empty interval of disparities is refused");
    }
    REACH();
}
HARNESS(range_dense)
{
    INPUT(uint16_t,d); INPUT(uint16_t,scale); INPUT(uint16_t,dmin); INPUT(uint16_t,dmax); INPUT(double,fx); INPUT(double,fy); INPUT(double,cx); INPUT(double,cy);
    INPUT(double,baseline); INPUT_BOOL(latlon);
    double f[4] = {fx,fy,cx,cy}, r = -7.;
    mrcal_image_uint16_t D = {.w=1,.h=1,.stride=2,.data=&d}; mrcal_image_double_t R = {.w=1,.h=1,.stride=8,.data=&r};
    bool ok = mrcal_stereo_range_dense(&R, &D, scale, dmin, dmax, latlon ? MRCAL_LENSMODEL_LATLON : MRCAL_LENSMODEL_PINHOLE, f, baseline);
    if(ok)
    {
        CHECK(fin(r), "the range is finite");
        if(scale == 0 || d == 0 || d < dmin || d > dmax) CHECK(r == 0., "an invalid disparity has no range");
        CHECK(!(dmin >= dmax), "an empty interval of disparities is refused");
    }
    REACH();
}
