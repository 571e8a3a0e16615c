// the random stream of a counterexample; without one, erand48 of the C library
#include <stdlib.h>
#define SYMEX_MAX 65536
extern "C" {
double symex_stream[SYMEX_MAX];
int symex_n = 0, symex_i = 0, symex_on = 0;
unsigned long long symex_state = 1;
double symex_erand48(unsigned short x[3]) {
    if (!symex_on) return erand48(x);
    if (symex_i < symex_n) return symex_stream[symex_i++];
    symex_state = (symex_state * 0x5DEECE66Dull + 0xB) & 0xffffffffffffull;
    return (double)symex_state / 281474976710656.0;
}
}
