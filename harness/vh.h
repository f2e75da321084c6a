// Harness support: the same harness is encoded by CBMC and, for replays, compiled against the real library.
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#ifdef __CPROVER
  int            nondet_int(void);
  unsigned       nondet_unsigned(void);
  uint8_t        nondet_uint8_t(void);
  uint16_t       nondet_uint16_t(void);
  int16_t        nondet_int16_t(void);
  int8_t         nondet_int8_t(void);
  char           nondet_char(void);
  double         nondet_double(void);
  float          nondet_float(void);
  #define INPUT(T,name) T name = nondet_##T(); __CPROVER_input(#name, name)
  #define INPUT_BOOL(name) int name##_raw = nondet_int(); __CPROVER_input(#name, name##_raw); __CPROVER_assume(name##_raw==0||name##_raw==1); bool name = (bool)name##_raw
  #define INPUT_INTO(T,id,lv) do { T id##_v = nondet_##T(); __CPROVER_input(#id, id##_v); lv = id##_v; } while(0)
  #define ASSUME(c) __CPROVER_assume(c)
  #ifdef TWIN
    #define CHECK(c,msg) ((void)0)
    #define REACH() __CPROVER_assert(0,"REACH")
  #else
    #define CHECK(c,msg) __CPROVER_assert(c,msg)
    #define REACH() ((void)0)
  #endif
  #define HARNESS(fn) void fn(void)
#else
  #include <stdio.h>
  double vh_next(const char* id);
  #define INPUT(T,name) T name = (T)vh_next(#name)
  #define INPUT_BOOL(name) bool name = (vh_next(#name) != 0.)
  #define INPUT_INTO(T,id,lv) do { lv = (T)vh_next(#id); } while(0)
  #define ASSUME(c) do { if(!(c)) { printf("REPLAY: assumption false: %s\n", #c); fflush(stdout); _Exit(77); } } while(0)
  #define CHECK(c,msg) do { if(!(c)) { printf("REPLAY: property violated: %s\n", msg); fflush(stdout); _Exit(42); } } while(0)
  #define REACH() do { printf("REPLAY: reached the end\n"); fflush(stdout); _Exit(0); } while(0)
  #define HARNESS(fn) void fn(void)
#endif
