// Stand-in for stb_image: the functions image.c calls, implemented by harness/images.c
#pragma once
#include <stdio.h>
typedef unsigned char stbi_uc; typedef unsigned short stbi_us;
int stbi_info_from_file(FILE* f, int* x, int* y, int* comp);
int stbi_is_16_bit_from_file(FILE* f);
stbi_uc* stbi_load_from_file(FILE* f, int* x, int* y, int* comp, int req);
stbi_us* stbi_load_from_file_16(FILE* f, int* x, int* y, int* comp, int req);
void stbi_image_free(void* p);
