// Native replay host: runs one harness entry of the real compiled code on a
// concrete input stream and reports how it ended.
//   host LIB.so ENTRY HEXINPUT
// stdout: lines "out <hex>", "cover <text>", and a final "end ok|assume|fail <msg>|short"
// A panic aborts the process (signal), which the caller reports as kind=panic.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>
static unsigned char *in; static size_t n, pos;
static void fin(const char *s) { printf("end %s\n", s); fflush(stdout); _exit(0); }
void sym_bytes(uint8_t *p, size_t k) { if (pos + k > n) fin("short"); memcpy(p, in + pos, k); pos += k; }
uint32_t sym_choose(uint32_t k) { if (k == 0) fin("assume"); if (pos >= n) fin("short"); uint32_t v = in[pos++]; if (v >= k) fin("assume"); return v; }
void sym_assume(_Bool b) { if (!b) fin("assume"); }
static void hex(const char *t, const uint8_t *p, size_t k) { printf("%s ", t); for (size_t i = 0; i < k; i++) printf("%02x", p[i]); printf("\n"); }
void sym_fail(const uint8_t *p, size_t k) { printf("end fail %.*s\n", (int)k, (const char *)p); fflush(stdout); _exit(0); }
void sym_cover(const uint8_t *p, size_t k) { printf("cover %.*s\n", (int)k, (const char *)p); }
void sym_out(const uint8_t *p, size_t k) { hex("out", p, k); fflush(stdout); }
uint64_t sym_pin(uint64_t x) { return x; }
void sym_nofmt(const void *p) { (void)p; }
static void refused(int s) { (void)s; fin("ok"); }
void sym_may_panic(void) { signal(SIGABRT, refused); }
_Bool sym_is_sym(void) { return 0; }
static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
int main(int c, char **v) {
  if (c < 4) return 9;
  struct rlimit rl = {8ull << 30, 8ull << 30}; setrlimit(RLIMIT_AS, &rl);
  struct rlimit cr = {0, 0}; setrlimit(RLIMIT_CORE, &cr);
  n = strlen(v[3]) / 2; in = malloc(n + 1);
  for (size_t i = 0; i < n; i++) in[i] = hv(v[3][2*i]) * 16 + hv(v[3][2*i+1]);
  void *h = dlopen(v[1], RTLD_NOW | RTLD_GLOBAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 8; }
  void (*f)(void) = dlsym(h, v[2]); if (!f) { fprintf(stderr, "no entry\n"); return 7; }
  f(); fin("ok"); return 0;
}
