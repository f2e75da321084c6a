// Stand-in for libpng's simplified API, implemented by harness/images.c
#pragma once
#define PNG_IMAGE_VERSION 1
#define PNG_FORMAT_GRAY 0
#define PNG_FORMAT_LINEAR_Y 4
#define PNG_FORMAT_RGB 2
typedef struct { void* opaque; unsigned version, width, height, format, flags, colormap_entries, warning_or_error; char message[64]; } png_image;
int png_image_write_to_file(png_image* image, const char* file, int convert_to_8bit, const void* buffer, int row_stride, const void* colormap);
void png_image_free(png_image* image);
