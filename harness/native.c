/* Native replay runtime: inputs come from the file named by SYMX_INPUT
   (lines "name hex"), consumed in order of creation. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
int symx_case;
static FILE *in;
static int failed;
extern void harness(void);
void symx_make(void *p, size_t n, const char *name) {
    char nm[256]; unsigned char *q = p; size_t i;
    memset(p, 0, n);
    if (!in || fscanf(in, "%255s ", nm) != 1) return;
    if (strcmp(nm, name)) { fprintf(stderr, "REPLAY-DESYNC wanted %s got %s\n", name, nm); _exit(77); }
    for (i = 0; i < n; i++) { unsigned b; if (fscanf(in, "%2x", &b) != 1) { fprintf(stderr, "REPLAY-DESYNC short %s\n", name); _exit(77); } q[i] = b; }
}
void symx_end(void) { printf("END\n"); fflush(stdout); _exit(failed ? 1 : 0); }
void symx_assume(int c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(failed ? 1 : 3); } }
void symx_assert(int c, const char *l) { if (!c) { printf("ASSERT-FAILED %s\n", l); fflush(stdout); failed = 1; } }
void symx_concretize(void *p, size_t n) { (void)p; (void)n; }
void symx_observe(uint64_t v) { printf("OBS %lu\n", (unsigned long)v); }
void symx_reach(const char *l) { (void)l; }
int symx_is_symbolic(uint64_t v) { (void)v; return 0; }
int symx_readable(const void *p, size_t n) { (void)p; (void)n; return 1; }
uint64_t symx_live_heap(void) { return 0; }
int main(int argc, char **argv) {
    char *f = getenv("SYMX_INPUT"), *c = getenv("SYMX_CASE");
    if (f) in = fopen(f, "r");
    if (c) symx_case = atoi(c);
    (void)argc; (void)argv;
    harness();
    symx_end();
    return 0;
}
