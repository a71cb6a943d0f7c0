/* the same harness is executed symbolically by CBMC and natively to replay a counterexample */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "lj92.h"
typedef uint8_t u8;
typedef uint16_t u16;
u8 in[NIN];                     /* every input of the harness */
#ifdef SYM
u8 nondet_u8(void);
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(name, c) __CPROVER_assert(c, "CHECK " name)
#define COVER(name, c) __CPROVER_assert(!(c), "COVER " name)
static void get_inputs(void) { for (int i = 0; i < NIN; i++) in[i] = nondet_u8(); }
#else
#include <stdio.h>
static const char *infile;
#define ASSUME(c) do { if (!(c)) { printf("ASSUME %s\n", #c); exit(77); } } while (0)
#define CHECK(name, c) do { if (!(c)) { printf("CHECK %s\n", name); exit(1); } } while (0)
#define COVER(name, c) do { if (c) printf("COVER %s\n", name); } while (0)
static void get_inputs(void) {
    FILE *f = fopen(infile, "rb");
    if (!f || fread(in, 1, NIN, f) != NIN) exit(78);
    fclose(f);
}
void harness(void);
int main(int argc, char **argv) { infile = argv[1]; harness(); printf("OK\n"); return 0; }
#endif
