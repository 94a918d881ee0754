#include "fr.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define TAG 0x53594d21u
static FILE *out, *in;
static uint64_t next_id = 1;
FrElement Fr_q;
static void open_pipes() {
    if (!out) { out = fdopen(atoi(getenv("SYM_OUT")), "w"); in = fdopen(atoi(getenv("SYM_IN")), "r"); }
}
static void put(PFrElement r, uint64_t id) { memset(r, 0, sizeof(*r)); r->type = TAG; r->longVal[0] = id; }
// the handle of an element; constants are announced as raw words
static uint64_t get(PFrElement a) {
    open_pipes();
    if (a->type == TAG) return a->longVal[0];
    uint64_t id = next_id++;
    fprintf(out, "k %llu %d %x", (unsigned long long)id, (int)a->shortVal, (unsigned)a->type);
    for (int i = 0; i < Fr_N64; i++) fprintf(out, " %llx", (unsigned long long)a->longVal[i]);
    fprintf(out, "\n");
    return id;
}
#define X(n) void Fr_##n(PFrElement r, PFrElement a, PFrElement b) { uint64_t x = get(a), y = get(b), id = next_id++; \
    fprintf(out, "b %llu %s %llu %llu\n", (unsigned long long)id, #n, (unsigned long long)x, (unsigned long long)y); put(r, id); }
SYM_BIN(X)
#undef X
#define X(n) void Fr_##n(PFrElement r, PFrElement a) { uint64_t x = get(a), id = next_id++; \
    fprintf(out, "u %llu %s %llu\n", (unsigned long long)id, #n, (unsigned long long)x); put(r, id); }
SYM_UN(X)
#undef X
void Fr_copy(PFrElement r, PFrElement a) { *r = *a; }
void Fr_copyn(PFrElement r, PFrElement a, int n) { for (int i = 0; i < n; i++) r[i] = a[i]; }
void Fr_toNormal(PFrElement r, PFrElement a) { *r = *a; }
void Fr_toMontgomery(PFrElement r, PFrElement a) { *r = *a; }
void Fr_toLongNormal(PFrElement r, PFrElement a) { put(r, get(a)); }
static long ask(char c, PFrElement a) {
    uint64_t x = get(a);
    fprintf(out, "%c %llu\n", c, (unsigned long long)x);
    fflush(out);
    char buf[64];
    if (!fgets(buf, sizeof buf, in)) _exit(77);
    return atol(buf);
}
int Fr_isTrue(PFrElement a) { return (int)ask('t', a); }
int Fr_toInt(PFrElement a) { return (int)ask('i', a); }
void Fr_str2element(PFrElement r, char const *s, uint base) {
    open_pipes();
    uint64_t id = next_id++;
    fprintf(out, "s %llu %u %s\n", (unsigned long long)id, base, s);
    put(r, id);
}
char *Fr_element2str(PFrElement a) { char *b = (char *)malloc(32); snprintf(b, 32, "<%llu>", (unsigned long long)get(a)); return b; }
__attribute__((destructor)) static void done() { if (out) fflush(out); }
