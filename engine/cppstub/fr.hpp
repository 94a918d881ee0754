// Field elements of the generated C++ code as handles: every operation is written to a pipe, its meaning is given by
// the checker.  Constants read from the .dat file keep the layout of the real library and are decoded on use.
#ifndef __FR_H
#define __FR_H
#include <stdint.h>
#include <string>
#include <gmp.h>
#define Fr_N64 SYM_N64
#define Fr_SHORT 0x00000000
#define Fr_LONG 0x80000000
#define Fr_LONGMONTGOMERY 0xC0000000
typedef uint64_t FrRawElement[Fr_N64];
typedef struct __attribute__((__packed__)) {
    int32_t shortVal;
    uint32_t type;
    FrRawElement longVal;
} FrElement;
typedef FrElement *PFrElement;
extern FrElement Fr_q;
#define SYM_BIN(X) X(add) X(sub) X(mul) X(band) X(bor) X(bxor) X(shl) X(shr) X(eq) X(neq) X(lt) X(gt) X(leq) X(geq) X(land) X(lor) X(idiv) X(mod) X(div) X(pow)
#define SYM_UN(X) X(neg) X(bnot) X(lnot) X(inv) X(square)
#define X(n) void Fr_##n(PFrElement r, PFrElement a, PFrElement b);
SYM_BIN(X)
#undef X
#define X(n) void Fr_##n(PFrElement r, PFrElement a);
SYM_UN(X)
#undef X
void Fr_copy(PFrElement r, PFrElement a);
void Fr_copyn(PFrElement r, PFrElement a, int n);
void Fr_toNormal(PFrElement r, PFrElement a);
void Fr_toLongNormal(PFrElement r, PFrElement a);
void Fr_toMontgomery(PFrElement r, PFrElement a);
int Fr_isTrue(PFrElement pE);
int Fr_toInt(PFrElement pE);
void Fr_str2element(PFrElement pE, char const *s, uint base);
char *Fr_element2str(PFrElement pE);
#endif
