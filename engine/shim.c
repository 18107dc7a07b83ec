/* Native side of the sym_* interface: replays one assignment of the symbolic bytes
 * (hex string in $SYM_BYTES) through the very same compiled harness. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static const char *hx; static size_t pos, len; static int init; static uint64_t h = 1469598103934665603ull, n; static int quiet_abort;
static void setup(void) { if (init) return; init = 1; hx = getenv("SYM_BYTES"); if (!hx) hx = ""; len = strlen(hx) / 2; }
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
uint8_t sym_byte(void) { setup(); if (pos >= len) { pos++; return 0; } uint8_t v = hexv(hx[2 * pos]) * 16 + hexv(hx[2 * pos + 1]); pos++; return v; }
void sym_assume(uint8_t c) { if (!c) { printf("SYM assume-violated\n"); fflush(stdout); _exit(78); } }
void sym_assert(uint8_t c, const char *m, size_t l) { if (!c) { printf("SYM assert-failed: %.*s\n", (int)l, m); fflush(stdout); _exit(77); } }
void sym_fail(const char *m, size_t l) { sym_assert(0, m, l); }
void sym_cover(uint32_t i) { (void)i; }
uint64_t sym_conc(uint64_t v) { return v; }
void sym_log(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 0xff; h *= 1099511628211ull; } n++; }
void sym_note(const char *m, size_t l) { if (getenv("SYM_VERBOSE")) printf("SYM note: %.*s\n", (int)l, m); }
uint32_t sym_active(void) { return 0; }
void sym_expect_panic(void) { printf("SYM expect-panic\n"); fflush(stdout); }
void sym_done(void) { printf("SYM done %016llx %llu\n", (unsigned long long)h, (unsigned long long)n); fflush(stdout); _exit(0); }
