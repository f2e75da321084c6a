// Stand-in for libjpeg, implemented by harness/images.c
#pragma once
#include <stdio.h>
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
typedef unsigned char JSAMPLE; typedef JSAMPLE* JSAMPROW; typedef JSAMPROW* JSAMPARRAY;
typedef enum { JCS_UNKNOWN, JCS_GRAYSCALE, JCS_RGB, JCS_YCbCr } J_COLOR_SPACE;
struct jpeg_common_struct; typedef struct jpeg_common_struct* j_common_ptr;
struct jpeg_error_mgr { void (*error_exit)(j_common_ptr); void (*output_message)(j_common_ptr); };
struct jpeg_common_struct { struct jpeg_error_mgr* err; };
struct jpeg_compress_struct { struct jpeg_error_mgr* err; unsigned image_width, image_height, next_scanline; int input_components; J_COLOR_SPACE in_color_space, jpeg_color_space; int quality; FILE* f; };
typedef struct jpeg_compress_struct* j_compress_ptr;
struct jpeg_error_mgr* jpeg_std_error(struct jpeg_error_mgr* e);
void jpeg_create_compress(j_compress_ptr c); void jpeg_stdio_dest(j_compress_ptr c, FILE* f);
void jpeg_set_defaults(j_compress_ptr c); void jpeg_set_quality(j_compress_ptr c, int q, int force);
void jpeg_set_colorspace(j_compress_ptr c, J_COLOR_SPACE s);
void jpeg_start_compress(j_compress_ptr c, int all);
unsigned jpeg_write_scanlines(j_compress_ptr c, JSAMPARRAY rows, unsigned n);
void jpeg_finish_compress(j_compress_ptr c); void jpeg_destroy_compress(j_compress_ptr c);
