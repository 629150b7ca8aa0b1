/* shared by the harnesses: random numbers, verdicts, counters */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>

static uint64_t rs;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static uint32_t below(uint32_t n) { return n ? rnd() % n : 0; }
static void seed(unsigned long s) { rs = s * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 8; i++) rnd(); }

static struct { const char *name; unsigned long n; } cnt[128];
static void count(const char *name)
{
    for (int i = 0; i < 128; i++) {
        if (!cnt[i].name) cnt[i].name = name;
        if (cnt[i].name == name || !strcmp(cnt[i].name, name)) { cnt[i].n++; return; }
    }
}
static void summary(void)
{
    printf("SUMMARY {");
    for (int i = 0; i < 128 && cnt[i].name; i++) printf("%s\"%s\": %lu", i ? ", " : "", cnt[i].name, cnt[i].n);
    printf("}\n");
    fflush(stdout);
}
static void show(const void *p, size_t n)
{
    const unsigned char *b = p;
    putchar('"');
    for (size_t i = 0; i < n && i < 120; i++)
        if (b[i] >= 32 && b[i] < 127 && b[i] != '"' && b[i] != '\\') putchar(b[i]); else printf("\\x%02x", b[i]);
    putchar('"');
}
/* prints the verdict and ends the run: the first deviation is enough */
static void bad(const char *key, const char *fmt, ...)
{
    va_list ap;
    printf("MISMATCH %s ", key);
    va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
    printf("\n");
    fflush(stdout);
    _Exit(1);
}
/* a copy without a byte to spare, so that a sanitizer sees any overrun */
static char *exact(const void *p, size_t n) { char *q = malloc(n ? n : 1); if (n) memcpy(q, p, n); return q; }
static char *exacts(const char *s) { return exact(s, strlen(s) + 1); }
