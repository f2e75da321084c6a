// mrcal_apply_color_map_*(): range, clamping, strides and rounding, for every pixel value
#include <stdio.h>
#include <math.h>
#include "mrcal.h"
#include "vh.h"
#ifndef T
#define T int16_t
#define TNAME int16
#endif
#ifndef W
#define W 2
#define H 1
#endif
#define PASTE_(a,b) a##b
#define PASTE(a,b) PASTE_(a,b)
#define FN    PASTE(mrcal_apply_color_map_,TNAME)
#define IMAGE PASTE(PASTE(mrcal_image_,TNAME),_t)
#ifdef __CPROVER
int fprintf(FILE* f, const char* fmt, ...) { (void)f; (void)fmt; return 0; }
// the formulas used here do not call these
float sinf(float x) { (void)x; return 0.f; } float cosf(float x) { (void)x; return 0.f; } float sqrtf(float x) { (void)x; return 0.f; }
#define INPUT_T(id,lv) do { lv = PASTE(nondet_,T)(); __CPROVER_input(#id, lv); } while(0)
int32_t nondet_int32_t(void); uint32_t nondet_uint32_t(void); int64_t nondet_int64_t(void); uint64_t nondet_uint64_t(void);
#else
#define INPUT_T(id,lv) do { lv = (T)vh_next(#id); } while(0)
#endif
#ifdef IS_FLOAT
  // finite, and differences do not overflow
  #define OK(v) ((v) > -(T)1e30 && (v) < (T)1e30)
#elif defined RANGE
  #define OK(v) ((v) >= (T)(CENTER - RANGE) && (v) <= (T)(CENTER + RANGE))
#elif defined SHIFT
  #define OK(v) (((v) & (T)((((uint64_t)1)<<SHIFT)-1)) == 0)
#else
  #define OK(v) true
#endif
#ifndef SHIFT
#define SHIFT 0
#endif
enum { SI = (W+1)*sizeof(T), SO = W*3+2 };

HARNESS(colormap)
{
    // padded rows: the output's aren't divisible by the pixel size
    T in[H*(W+1)], in0[H*(W+1)];
    uint8_t out[H*SO];
    for(int i=0;i<H*(W+1);i++) { INPUT_T(pixel,in[i]); ASSUME(OK(in[i])); in0[i] = in[i]; }
    for(int i=0;i<H*SO;i++) out[i] = (uint8_t)(41*i+3);
    INPUT_BOOL(auto_min); INPUT_BOOL(auto_max);
    T lo, hi;
    INPUT_T(lo,lo); INPUT_T(hi,hi);
    ASSUME(OK(lo) && OK(hi));
#ifdef AUTO
    ASSUME(auto_min == (AUTO&1) && auto_max == (AUTO>>1));
#endif
    IMAGE a; a.w = W; a.h = H; a.stride = SI; a.data = in;
    mrcal_image_bgr_t b; b.w = W; b.h = H; b.stride = SO; b.data = (mrcal_bgr_t*)out;

    // the range to use
    T mn = in[0], mx = in[0];
    for(int y=0;y<H;y++) for(int x=0;x<W;x++)
    {
        const T v = in[y*(W+1)+x];
        if(v < mn) mn = v;
        if(v > mx) mx = v;
    }
    if(!auto_min) mn = lo;
    if(!auto_max) mx = hi;
    // an empty range makes sense only if it's a constant image
    ASSUME(mn < mx || (auto_min && auto_max));

    const bool r = FN(&b, &a, auto_min, auto_max, false, lo, hi, 3,-3,4);
    CHECK(r, "succeeds");
    for(int y=0;y<H;y++) for(int x=0;x<W;x++)
    {
        const T v = in[y*(W+1)+x];
        const int blue = out[y*SO+3*x], green = out[y*SO+3*x+1], red = out[y*SO+3*x+2];
        if(v <= mn)      CHECK(red == 0 && green == 255 && blue == 0,     "the minimum and anything below it is the first color");
        else if(v >= mx) CHECK(red == 255 && green == 0 && blue == 255,   "the maximum and anything above it is the last color");
        else
        {
#ifndef IS_FLOAT
#ifdef LINEAR
            const int n = (int)(((uint64_t)v - (uint64_t)mn)>>SHIFT), D = (int)(((uint64_t)mx - (uint64_t)mn)>>SHIFT);
            const int e = red*D - 255*n, f = (255-green)*D - 255*n;
            CHECK(100*(int64_t)e <= 51*D && -100*(int64_t)e <= 51*D, "in between: the nearest to 255*(v-min)/(max-min)");
            CHECK(100*(int64_t)f <= 51*D && -100*(int64_t)f <= 51*D, "in between: the inverted formula");
#endif
#endif
        }
    }
    for(int i=0;i<H*(W+1);i++) CHECK(in[i] == in0[i], "the input is unchanged");
    for(int y=0;y<H;y++) for(int x=W*3;x<SO;x++) CHECK(out[y*SO+x] == (uint8_t)(41*(y*SO+x)+3), "nothing is written past the end of a row");
    REACH();
}
HARNESS(rejects)
{
    INPUT(int,w); INPUT(int,h); INPUT(int,f);
    ASSUME(0<=w && w<=W && 0<=h && h<=H); ASSUME(f >= -1000000 && f <= 1000000);
    T in[H*W]; uint8_t out[H*W*3], out0[H*W*3];
    for(int i=0;i<H*W;i++) in[i] = (T)i;
    for(int i=0;i<H*W*3;i++) out[i] = out0[i] = (uint8_t)(41*i+3);
    IMAGE a; a.w = W; a.h = H; a.stride = W*sizeof(T); a.data = in;
    mrcal_image_bgr_t b; b.w = w; b.h = h; b.stride = W*3; b.data = (mrcal_bgr_t*)out;
    const bool r = FN(&b, &a, true, true, false, 0, 0, 2,f,2);
    if(w != W || h != H)
    {
        CHECK(!r, "the images must have the same size");
        for(int i=0;i<H*W*3;i++) CHECK(out[i] == out0[i], "nothing is written if the sizes do not match");
    }
    else CHECK(r == (f >= -36 && f <= 36), "there are 37 formulas and their inverses");
    REACH();
}
