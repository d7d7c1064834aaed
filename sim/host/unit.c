/* The compiler under test, unmodified, as one translation unit. */
#define main unit_main
#include "src/main.c"
