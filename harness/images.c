// The image views, the conversions of image.c, and what it hands to the image-format libraries.
// image.c itself is included, with its I/O (stdio, stb_image, libpng, libjpeg) replaced by stand-ins that record
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include <setjmp.h>
#include "vh.h"
static FILE* vh_fopen(const char* name, const char* mode);
static int vh_fclose(FILE* f);
static int vh_fprintf(FILE* f, const char* fmt, ...);
static size_t vh_fwrite(const void* p, size_t size, size_t n, FILE* f);
#define fopen vh_fopen
#define fclose vh_fclose
#define fprintf vh_fprintf
#define fwrite vh_fwrite
#undef setjmp
#define setjmp(b) 0
#define longjmp(b,x) abort()
#include "image.c"
#undef fopen
#undef fclose
#undef fprintf
#undef fwrite

#ifndef WMAX
#define WMAX 3
#endif
#ifndef HMAX
#define HMAX 3
#endif
#ifndef W
#define W 2
#define H 2
#endif
#ifndef PAD
#define PAD 1
#endif

// what the stand-ins saw
static char _file; static int nopen, nclose;
static bool fopen_fails;
static FILE* vh_fopen(const char* name, const char* mode) { (void)name; (void)mode; if(fopen_fails) return NULL; nopen++; return (FILE*)&_file; }
static int vh_fclose(FILE* f) { (void)f; nclose++; return 0; }
static int pnm_kind, pnm_w, pnm_h, pnm_max, nheaders;
static int vh_fprintf(FILE* f, const char* fmt, ...)
{
    if(fmt[0] != 'P') return 0; // messages
    va_list ap; va_start(ap, fmt);
    pnm_kind = va_arg(ap,int); pnm_w = va_arg(ap,int); pnm_h = va_arg(ap,int); pnm_max = va_arg(ap,int);
    va_end(ap);
    nheaders++;
    return 1;
}
#define OUTMAX (W*H*3+8)
static uint8_t outbuf[OUTMAX]; static int nout; static bool overflowed;
static void emit(const void* p, size_t n)
{
    for(size_t i=0;i<n;i++)
    {
        if(nout >= OUTMAX) { overflowed = true; return; }
        outbuf[nout++] = ((const uint8_t*)p)[i];
    }
}
static size_t vh_fwrite(const void* p, size_t size, size_t n, FILE* f) { (void)f; emit(p, size*n); return n; }

static int png_format = -1, png_w, png_h, npng;
int png_image_write_to_file(png_image* image, const char* file, int convert, const void* buffer, int row_stride, const void* colormap)
{
    (void)file; (void)convert; (void)colormap;
    npng++;
    png_format = image->format; png_w = image->width; png_h = image->height;
    // the stride is in samples
    const int bytes = png_format == PNG_FORMAT_LINEAR_Y ? 2 : 1, channels = png_format == PNG_FORMAT_RGB ? 3 : 1;
    for(int y=0;y<png_h;y++)
        emit((const uint8_t*)buffer + (ptrdiff_t)y*row_stride*bytes, png_w*channels*bytes);
    return 1;
}
void png_image_free(png_image* image) { (void)image; }
static int jpg_w, jpg_h, jpg_c, jpg_cs, njpg;
struct jpeg_error_mgr* jpeg_std_error(struct jpeg_error_mgr* e) { return e; }
void jpeg_create_compress(j_compress_ptr c) { c->next_scanline = 0; } void jpeg_stdio_dest(j_compress_ptr c, FILE* f) { c->f = f; }
void jpeg_set_defaults(j_compress_ptr c) { (void)c; } void jpeg_set_quality(j_compress_ptr c, int q, int force) { (void)c; (void)q; (void)force; }
void jpeg_set_colorspace(j_compress_ptr c, J_COLOR_SPACE s) { (void)c; (void)s; }
void jpeg_start_compress(j_compress_ptr c, int all) { (void)all; njpg++; jpg_w = c->image_width; jpg_h = c->image_height; jpg_c = c->input_components; jpg_cs = c->in_color_space; }
unsigned jpeg_write_scanlines(j_compress_ptr c, JSAMPARRAY rows, unsigned n)
{
    for(unsigned i=0;i<n;i++) emit(rows[i], c->image_width*c->input_components);
    c->next_scanline += n; return n;
}
void jpeg_finish_compress(j_compress_ptr c) { (void)c; } void jpeg_destroy_compress(j_compress_ptr c) { (void)c; }

// The stored file that is being read: W x H pixels
static int disk_channels; static bool disk_16; static uint16_t disk[W*H*4]; static bool load_fails;
static void *stbi_last; static int stbi_frees;
int stbi_info_from_file(FILE* f, int* x, int* y, int* comp) { (void)f; *x = W; *y = H; *comp = disk_channels; return 1; }
int stbi_is_16_bit_from_file(FILE* f) { (void)f; return disk_16; }
stbi_uc* stbi_load_from_file(FILE* f, int* x, int* y, int* comp, int req)
{
    (void)f; *x = W; *y = H; *comp = disk_channels;
    if(load_fails) return NULL;
    uint8_t* p = malloc(W*H*req);
    // grayscale stored as color: repeated. Color read as grayscale: the library's conversion, here the first channel
    for(int i=0;i<W*H;i++) for(int c=0;c<req;c++) p[i*req+c] = (uint8_t)disk[i*4 + (disk_channels>=3 ? c : 0)];
    stbi_last = p; return p;
}
stbi_us* stbi_load_from_file_16(FILE* f, int* x, int* y, int* comp, int req)
{
    (void)f; *x = W; *y = H; *comp = disk_channels;
    if(load_fails) return NULL;
    uint16_t* p = malloc(W*H*req*2);
    for(int i=0;i<W*H;i++) for(int c=0;c<req;c++) p[i*req+c] = disk[i*4];
    stbi_last = p; return p;
}
void stbi_image_free(void* p) { if(p) stbi_frees++; free(p); }

#ifndef SMALL
#define SMALL 0
#endif
// ---------------------------------------------------------------- pixel addresses
// No memory is dereferenced, so that the sizes can be large
static double base[2]; // aligned for every type
#ifdef __CPROVER
  #define OFFSET(p) ((ptrdiff_t)__CPROVER_POINTER_OFFSET(p))
#else
  #define OFFSET(p) ((const char*)(p) - (const char*)base)
#endif
#define DEFINE_ADDRESS(T,Tname)                                              \
HARNESS(address_##Tname)                                                \
{                                                                       \
    INPUT(int,w); INPUT(int,h); INPUT(int,stride); INPUT(int,x); INPUT(int,y); INPUT(int,x0); INPUT(int,y0); INPUT(int,wc); INPUT(int,hc); INPUT(int,k); \
    ASSUME(1<=w && w<=(SMALL ? 5 : 100000)); ASSUME(1<=h && h<=(SMALL ? 5 : 100000));               \
    /* top-down or bottom-up; any padding that keeps the pixels aligned */ \
    ASSUME(-1000000<=k && k<=1000000 && !(SMALL && (k < -64 || k > 64)));                                  \
    ASSUME(stride == k*(int)_Alignof(T));                               \
    ASSUME(stride >= w*(int)sizeof(T) || stride <= -w*(int)sizeof(T));  \
    ASSUME(0<=x0 && 0<=wc && wc<=w && x0<=w-wc && 0<=y0 && 0<=hc && hc<=h && y0<=h-hc); \
    ASSUME(x0 < w && y0 < h);                                           \
    ASSUME(0<=x && x<w && 0<=y && y<h);                                 \
    mrcal_image_##Tname##_t im;                                         \
    im.w = w; im.h = h; im.stride = stride; im.data = (T*)base;         \
    const mrcal_image_##Tname##_t im0 = im;                             \
    const ptrdiff_t want = (ptrdiff_t)y*(ptrdiff_t)stride + (ptrdiff_t)x*(ptrdiff_t)sizeof(T); \
    CHECK(OFFSET(mrcal_image_##Tname##_at(&im,x,y)) == want, "the address of a pixel"); \
    CHECK(OFFSET(mrcal_image_##Tname##_at_const(&im,x,y)) == want, "the address of a const pixel"); \
    mrcal_image_##Tname##_t cr = mrcal_image_##Tname##_crop(&im, x0,y0,wc,hc); \
    CHECK(cr.w == wc && cr.h == hc && cr.width == wc && cr.height == hc && cr.cols == wc && cr.rows == hc, "the size of the crop"); \
    CHECK(cr.stride == stride, "the stride of the crop");               \
    /* the address of its first pixel, its stride, and the address formula above give all of its pixels */ \
    CHECK(OFFSET(cr.data) == (ptrdiff_t)y0*(ptrdiff_t)stride + (ptrdiff_t)x0*(ptrdiff_t)sizeof(T), "the first pixel of the crop"); \
    if(SMALL && x < wc && y < hc)                                       \
        CHECK(mrcal_image_##Tname##_at(&cr,x,y) == mrcal_image_##Tname##_at(&im,x0+x,y0+y), "the crop addresses the same memory"); \
    CHECK(im.w == im0.w && im.h == im0.h && im.stride == im0.stride && im.data == im0.data, "the original image structure is unchanged"); \
    REACH();                                                            \
}
DEFINE_ADDRESS(uint8_t,uint8)  DEFINE_ADDRESS(uint16_t,uint16) DEFINE_ADDRESS(mrcal_bgr_t,bgr)
DEFINE_ADDRESS(int8_t,int8)    DEFINE_ADDRESS(int16_t,int16)
DEFINE_ADDRESS(int32_t,int32)  DEFINE_ADDRESS(uint32_t,uint32)
DEFINE_ADDRESS(int64_t,int64)  DEFINE_ADDRESS(uint64_t,uint64)
DEFINE_ADDRESS(float,float)    DEFINE_ADDRESS(double,double)

// ---------------------------------------------------------------- contrast stretch
HARNESS(stretch)
{
    // padded rows in both images, and pixels around them which must be left alone
    enum { SI = W+PAD, SO = W+PAD+1 };
    uint16_t in[H*SI]; uint8_t out[H*SO], out0[H*SO];
    for(int i=0;i<H*SI;i++) { uint16_t v; INPUT_INTO(uint16_t,pixel,v); in[i] = v; }
    for(int i=0;i<H*SO;i++) out[i] = out0[i] = (uint8_t)(37*i+11);
    mrcal_image_uint16_t a; a.w = W; a.h = H; a.stride = SI*2; a.data = in;
    mrcal_image_uint8_t b;  b.w = W; b.h = H; b.stride = SO;   b.data = out;
    int mn = 65536, mx = -1;
    for(int y=0;y<H;y++) for(int x=0;x<W;x++) { const int v = in[y*SI+x]; if(v<mn) mn = v; if(v>mx) mx = v; }
    stretch_equalization_uint8_from_uint16(&b,&a);
    for(int y=0;y<H;y++) for(int x=0;x<W;x++)
    {
        const int v = in[y*SI+x], o = out[y*SO+x];
        if(mx > mn)
        {
            CHECK(v != mn || o == 0,   "the darkest pixel maps to 0");
            CHECK(v != mx || o == 255, "the brightest pixel maps to 255");
#ifdef LINEAR
            // |o - 255 (v-mn)/(mx-mn)| <= 1/2 and a bit
            const int D = mx-mn, e = o*D - 255*(v-mn);
            CHECK(100*e <= 51*D && 100*e >= -51*D, "linear in between, to the nearest integer");
#endif
        }
        for(int y1=0;y1<H;y1++) for(int x1=0;x1<W;x1++)
            if(y1*W+x1 < y*W+x && mx > mn)
            {
                const int v1 = in[y1*SI+x1], o1 = out[y1*SO+x1];
                CHECK(!(v >= v1) || o >= o1, "monotonic");
                CHECK(!(v <= v1) || o <= o1, "monotonic");
            }
    }
    for(int y=0;y<H;y++) for(int x=W;x<SO;x++) CHECK(out[y*SO+x] == out0[y*SO+x], "nothing outside of the image is written");
    REACH();
}

// ---------------------------------------------------------------- saving
#ifndef BPP
#define BPP 24
#endif
#ifndef EXT
#define EXT ".png"
#endif
HARNESS(save)
{
    enum { BYTES = BPP/8, STRIDE = W*(BPP/8) + PAD*(BPP == 16 ? 2 : 1) };
    uint16_t store[(H*STRIDE+1)/2];
    uint8_t* px = (uint8_t*)store;
    uint8_t px0[H*STRIDE];
    for(int i=0;i<H*STRIDE;i++) { uint8_t v; INPUT_INTO(uint8_t,byte,v); px[i] = px0[i] = v; }
    mrcal_image_void_t im; im.w = W; im.h = H; im.stride = STRIDE; im.data = px;
    INPUT_BOOL(nofile);
    fopen_fails = nofile;
    bool r;
    switch(BPP)
    {
    case 8:  r = mrcal_image_uint8_save ("image" EXT, (const mrcal_image_uint8_t* )&im); break;
    case 16: r = mrcal_image_uint16_save("image" EXT, (const mrcal_image_uint16_t*)&im); break;
    default: r = mrcal_image_bgr_save   ("image" EXT, (const mrcal_image_bgr_t*   )&im); break;
    }
    CHECK(im.w == W && im.h == H && im.stride == STRIDE && im.data == (void*)px, "the image structure is unchanged");
    for(int i=0;i<H*STRIDE;i++) CHECK(px[i] == px0[i], "the image is unchanged");
    CHECK(nopen == nclose, "files are closed");
    const bool supported =
        !strcmp(EXT,".png") || !strcmp(EXT,".PNG") ||
        (!strcmp(EXT,".jpg") && BPP != 16) ||
        (!strcmp(EXT,".pgm") && BPP != 24) ||
        (!strcmp(EXT,".ppm") && BPP == 24);
    const bool png = !strcmp(EXT,".png") || !strcmp(EXT,".PNG");
    CHECK(r == (supported && (png || !nofile)), "the supported combinations are saved");
    if(r)
    {
        CHECK(!overflowed && nout == W*H*BYTES, "every pixel is written once");
        for(int y=0;y<H;y++) for(int x=0;x<W;x++) for(int c=0;c<BYTES;c++)
            CHECK(outbuf[(y*W+x)*BYTES+c] == px0[y*STRIDE + x*BYTES + (BPP==24 ? 2-c : c)], "each pixel is written in its place, in the RGB order");
        if(png)
            CHECK(npng == 1 && png_w == W && png_h == H && png_format == (BPP == 24 ? PNG_FORMAT_RGB : BPP == 16 ? PNG_FORMAT_LINEAR_Y : PNG_FORMAT_GRAY), "png header");
        else if(!strcmp(EXT,".jpg"))
            CHECK(njpg == 1 && jpg_w == W && jpg_h == H && jpg_c == BYTES && jpg_cs == (BPP == 24 ? JCS_RGB : JCS_GRAYSCALE), "jpg header");
        else
            CHECK(nheaders == 1 && pnm_w == W && pnm_h == H && pnm_kind == (BPP == 24 ? 6 : 5) && pnm_max == (BPP == 16 ? 65535 : 255), "pnm header");
    }
    else CHECK(nout == 0, "nothing is written on failure");
    REACH();
}

// ---------------------------------------------------------------- loading
#ifndef CHANNELS
#define CHANNELS 1
#define IS16     0
#define WANT     0
#endif
HARNESS(load)
{
    const int channels = CHANNELS; const bool is16 = IS16;
    INPUT_BOOL(nofile); INPUT_BOOL(failed);
    disk_channels = channels; disk_16 = is16; fopen_fails = nofile; load_fails = failed;
    for(int i=0;i<W*H*4;i++) { uint16_t v; INPUT_INTO(uint16_t,stored,v); disk[i] = is16 ? v : (v & 0xff); if(is16 && WANT == 8) disk[i] = 1000 - 7*i; /* the arithmetic is decided in stretch, for all values */ }
    mrcal_image_void_t im; im.w = -1; im.h = -1; im.stride = -1; im.data = NULL;
    int bpp = -1, ch = -1;
    // the type requested: 0 means whatever is stored
    const int want = WANT;
    bool r;
    if     (want == 8)  r = mrcal_image_uint8_load ((mrcal_image_uint8_t* )&im, "image.png");
    else if(want == 16) r = mrcal_image_uint16_load((mrcal_image_uint16_t*)&im, "image.png");
    else if(want == 24) r = mrcal_image_bgr_load   ((mrcal_image_bgr_t*   )&im, "image.png");
    else                r = mrcal_image_anytype_load(&im, &bpp, &ch, "image.png");
    // what is stored
    const int stored = is16 ? (channels == 1 ? 16 : -1) : (channels == 1 ? 8 : channels >= 3 ? 24 : -1);
    const bool ok = !nofile && !failed && stored > 0 &&
        (want == 0 || want == stored || want == 8 || (want == 24 && stored == 8));
    CHECK(r == ok, "the supported conversions are loaded");
    CHECK(nopen == nclose, "files are closed");
    if(r)
    {
        const int out = want ? want : stored;
        CHECK(want || (bpp == out && ch == (out == 24 ? 3 : 1)), "the type that was loaded");
        CHECK(im.w == W && im.h == H && im.stride == W*out/8 && im.data != NULL, "the image size");
        for(int i=0;i<W*H;i++)
        {
            if(out == 24)
                for(int c=0;c<3;c++) CHECK(((uint8_t*)im.data)[3*i+2-c] == (uint8_t)disk[4*i + (channels>=3 ? c : 0)], "each bgr pixel");
            else if(out == 16) CHECK(((uint16_t*)im.data)[i] == disk[4*i], "each 16-bit pixel");
            else if(!is16) CHECK(((uint8_t*)im.data)[i] == (uint8_t)disk[4*i], "each 8-bit pixel");
        }
        if(out == 8 && is16)
        {
            int lo = 0, hi = 0; // the darkest and the brightest
            for(int i=0;i<W*H;i++) { if(disk[4*i] < disk[4*lo]) lo = i; if(disk[4*i] > disk[4*hi]) hi = i; }
            if(disk[4*lo] < disk[4*hi])
                CHECK(((uint8_t*)im.data)[lo] == 0 && ((uint8_t*)im.data)[hi] == 255, "a 16-bit image is stretched to 8 bits");
        }
        free(im.data);
    }
    REACH();
}
