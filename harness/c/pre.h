/* Pre-included into every libloc source: a faster sprintf with identical
 * results for the three formats the (always compiled) hex dump uses. */
#ifndef MC_PRE_H
#define MC_PRE_H
#include <stdarg.h>
#include <stdio.h>
int mc_fast_sprintf(char* s, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#undef sprintf
#define sprintf mc_fast_sprintf
#endif
