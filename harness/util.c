/* The text and list utilities against independent reference implementations. */
#include "config.h"
#include <ctype.h>
#include <stddef.h>
#include "server/mdb.h"
#include "server/strutil.h"
#include "server/utf8.h"
#include "server/wildmat.h"
#include "server/strlist.h"
#include "server/namelist.h"
#include "h.h"

extern char *fields[];
int icbd_log = -1, log_level = 0;
void mdb(int l, const char *m) { (void)l; (void)m; }
void vmdb(int l, const char *f, ...) { (void)l; (void)f; }

/* ---------------------------------------------------------------- references */

/* one UTF-8 sequence at s (n bytes left): its length, 0 if it is cut off by the end,
 * or -k if the first k bytes are no beginning of any valid sequence */
static int ref_seq(const unsigned char *s, size_t n)
{
    unsigned lo = 0x80, hi = 0xBF;
    int need, i;
    if (s[0] < 0x80) return 1;
    if (s[0] < 0xC2 || s[0] > 0xF4) return -1;
    need = s[0] < 0xE0 ? 1 : s[0] < 0xF0 ? 2 : 3;
    if (s[0] == 0xE0) lo = 0xA0;
    if (s[0] == 0xED) hi = 0x9F;
    if (s[0] == 0xF0) lo = 0x90;
    if (s[0] == 0xF4) hi = 0x8F;
    for (i = 1; i <= need; i++) {
        if ((size_t)i >= n) return 0;
        if (s[i] < lo || s[i] > hi) return -i;
        lo = 0x80; hi = 0xBF;
    }
    return need + 1;
}

/* what may be passed on of the first len bytes of src */
static size_t ref_filtertext(const char *src, size_t len, char *out)
{
    size_t n = strnlen(src, len), i = 0, o = 0;
    while (i < n) {
        int k = ref_seq((const unsigned char *)src + i, n - i);
        if (k == 0) break;
        if (k < 0) { out[o++] = '?'; i += -k; continue; }
        if (k > 1 || (unsigned char)src[i] >= 0x20) { memcpy(out + o, src + i, k); o += k; }
        i += k;
    }
    return o;
}

static void ref_name(char *t, const char *ok)
{
    for (; *t; t++) {
        unsigned char c = *t;
        if ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')) continue;
        int good = 0;
        for (const char *p = ok; *p; p++) if (*p == *t) good = 1;
        if (!good) *t = c == ' ' ? '_' : '?';
    }
}

/* patterns: parsed into single-character tests and stars, then matched by dynamic programming */
typedef struct { int star, any, cls, lit; unsigned char set[32]; } tok;
static int ref_wild(const char *text, const char *p)
{
    static tok t[600];
    int nt = 0;
    for (; *p; p++) {
        tok k; memset(&k, 0, sizeof k);
        if (*p == '*') k.star = 1;
        else if (*p == '?') k.any = 1;
        else if (*p == '\\') { if (!p[1]) return 0; k.lit = (unsigned char)*++p; }
        else if (*p == '[') {
            int neg = 0, first = 1, prev = 0, i;
            const char *q = p + 1;
            k.cls = 1;
            if (*q == '^') { neg = 1; q++; }
            for (;; first = 0) {
                if (!*q) return -1;                     /* unterminated: matches nothing */
                if (*q == ']' && !first) break;
                if (*q == '-' && !first && q[1] && q[1] != ']') {
                    /* a range; characters compare as the machine's char does */
                    for (i = -128; i < 128; i++)
                        if (i <= (signed char)q[1] && i >= (signed char)prev) k.set[(unsigned char)i >> 3] |= 1 << (i & 7);
                    prev = q[1]; q += 2;
                    continue;
                }
                k.set[(unsigned char)*q >> 3] |= 1 << (*q & 7);
                prev = *q++;
            }
            if (neg) for (i = 0; i < 32; i++) k.set[i] = ~k.set[i];
            p = q;
        } else k.lit = (unsigned char)*p;
        t[nt++] = k;
    }
    size_t n = strlen(text);
    char *cur = calloc(n + 2, 1), *nx = calloc(n + 2, 1);
    cur[0] = 1;
    for (int i = 0; i < nt; i++) {
        memset(nx, 0, n + 2);
        if (t[i].star) { int on = 0; for (size_t j = 0; j <= n; j++) { on |= cur[j]; nx[j] = on; } }
        else for (size_t j = 0; j < n; j++) if (cur[j]) {
            unsigned char c = text[j];
            int m = t[i].any ? 1 : t[i].cls ? (t[i].set[c >> 3] >> (c & 7)) & 1 : c == t[i].lit;
            if (m) nx[j + 1] = 1;
        }
        char *x = cur; cur = nx; nx = x;
    }
    int r = cur[n];
    free(cur); free(nx);
    return r;
}
/* (an unterminated class late in the pattern means no match, whatever comes before) */

/* ---------------------------------------------------------------- one input each */

static void t_filtertext(const char *s, size_t len)
{
    char want[1200]; size_t n = ref_filtertext(s, len, want);
    char *src = exacts(s), *d = malloc(len ? len : 1);
    memset(d, 'Q', len ? len : 1);
    if (len) filtertext(src, d, len);
    size_t got = strnlen(d, len);
    if (len && (got != n || memcmp(d, want, n))) { printf("src "); show(s, strlen(s)); printf(" len %zu got ", len); show(d, got); printf(" want "); show(want, n); puts("");
        bad("filtertext", "wrong result"); }
    for (size_t i = got; i < len; i++) if (d[i]) bad("filtertext-tail", "bytes after the text not cleared");
    if (strcmp(src, s)) bad("filtertext-src", "source changed");
    free(src); free(d);
    count("filtertext");
}
static void t_names(const char *s)
{
    for (int w = 0; w < 2; w++) {
        char *a = exacts(s), *b = exacts(s);
        if (w) { filternickname(a); ref_name(b, "-.!'$+,/?_@"); } else { filtergroupname(a); ref_name(b, "-.!'$+,/?_~"); }
        if (strcmp(a, b)) { show(s, strlen(s)); printf(" -> "); show(a, strlen(a)); puts(""); bad(w ? "filternickname" : "filtergroupname", "wrong result"); }
        free(a); free(b);
    }
    count("names");
}
static void t_case(const char *s)
{
    char *a = exacts(s), *b = exacts(s);
    lcaseit(a); ucaseit(b);
    for (size_t i = 0; i <= strlen(s); i++) {
        unsigned char c = s[i];
        unsigned char l = c >= 'A' && c <= 'Z' ? c + 32 : c, u = c >= 'a' && c <= 'z' ? c - 32 : c;
        if ((unsigned char)a[i] != l) bad("lcaseit", "byte %02x became %02x", c, (unsigned char)a[i]);
        if ((unsigned char)b[i] != u) bad("ucaseit", "byte %02x became %02x", c, (unsigned char)b[i]);
    }
    free(a); free(b);
    count("case");
}
static void t_words(const char *s)
{
    char *a = exacts(s);
    size_t n = strcspn(s, " \t"), m = n > 63 ? 63 : n, tail = n + strspn(s + n, " \t");
    char *w = getword(a);
    if (strlen(w) != m || memcmp(w, s, m)) { show(s, strlen(s)); printf(" -> "); show(w, strlen(w)); puts(""); bad("getword", "wrong word"); }
    char *t = get_tail(a);
    if (t != a + tail) { show(s, strlen(s)); puts(""); bad("get_tail", "offset %ld, expected %zu", (long)(t - a), tail); }
    if (strcmp(a, s)) bad("words-src", "source changed");
    free(a);
    count("words");
}
static void t_fmt(const char *s, int n)
{
    int ns = 0, nb = 0, got = n;
    for (const char *p = s; *p; p++) {
        if (*p != '%') continue;
        if (p[1] == 's') { ns++; p++; }
        else if (p[1] == '%') p++;
        else nb++;          /* (the character after it is looked at again) */
    }
    char *a = exacts(s), *r = filterfmt(a, &got);
    int ok = !nb && ns == n;
    if ((r == NULL) != ok) { show(s, strlen(s)); puts(""); bad("filterfmt", "n=%d: %s", n, r ? r : "accepted"); }
    if (got != (nb ? -1 : ns)) { show(s, strlen(s)); puts(""); bad("filterfmt-count", "n=%d: count %d, expected %d", n, got, nb ? -1 : ns); }
    if (r && strstr(r, "can't include") == NULL && (nb || n == 0)) bad("filterfmt-msg", "%s", r);
    if (r && !nb && n > 0) { char b[80]; snprintf(b, 80, "(only) %d %%s", n); if (!strstr(r, b)) bad("filterfmt-msg", "%s", r); }
    free(a);
    count("filterfmt");
}
static void t_split(const char *s)
{
    char *a = exacts(s);
    int n = split(a), want = 1;
    for (const char *p = s; *p; p++) if (*p == 1) want++;
    int full = want > MAX_FIELDS;
    if (full) want = MAX_FIELDS;
    if (n != want) { show(s, strlen(s)); puts(""); bad("split", "%d fields, expected %d", n, want); }
    const char *p = s;
    for (int i = 0; i < n; i++) {
        size_t l = strcspn(p, "\1");
        if (full && i == n - 1) l = strlen(p);      /* (what comes after the last possible field stays in it) */
        if (strlen(fields[i]) != l || memcmp(fields[i], p, l)) { show(s, strlen(s)); puts(""); bad("split-field", "field %d wrong", i); }
        p += l; if (*p) p++;
    }
    for (int i = n; i < MAX_FIELDS; i++) if (fields[i] < a || fields[i] > a + strlen(s) || *fields[i]) bad("split-rest", "field %d of %d not empty", i, n);
    free(a);
    count("split");
}
static void t_utf8(const char *s)
{
    char *a = exacts(s);
    size_t n = 77, c = 0, i = 0, l = strlen(s);
    int good = 1;
    while (i < l) { int k = ref_seq((unsigned char *)s + i, l - i); if (k <= 0) { good = 0; break; } i += k; c++; }
    int r = countCodePoints((uint8_t *)a, &n);
    if ((r == 0) != good) { show(s, l); puts(""); bad("countCodePoints", "returned %d", r); }
    if (good && n != c) { show(s, l); puts(""); bad("countCodePoints-n", "%zu, expected %zu", n, c); }
    uint32_t st = UTF8_ACCEPT, cp = 0;
    for (i = 0; i < l && good; ) {
        int k = ref_seq((unsigned char *)s + i, l - i);
        uint32_t v = k == 1 ? (unsigned char)s[i] : (unsigned char)s[i] & (0xFF >> (k + 1));
        for (int j = 1; j < k; j++) v = v << 6 | ((unsigned char)s[i + j] & 63);
        for (int j = 0; j < k; j++) {
            uint32_t x = decode(&st, &cp, s[i + j]);
            if (x != st) bad("decode-state", "returns another state");
            if (j < k - 1 ? x == UTF8_ACCEPT || x == UTF8_REJECT : x != UTF8_ACCEPT) { show(s, l); puts(""); bad("decode", "state %u inside a valid sequence", x); }
        }
        if (cp != v) bad("decode-value", "U+%04X decoded as U+%04X", v, cp);
        i += k;
    }
    free(a);
    count("utf8");
}
static void t_wild(const char *text, const char *pat)
{
    char *a = exacts(text), *p = exacts(pat);
    int g = wildmat(a, p), w = ref_wild(text, pat);
    if (w < 0) w = 0;
    if (!strcmp(pat, "*")) w = 1;
    if (!!g != w || (g != 0 && g != 1)) { printf("text "); show(text, strlen(text)); printf(" pattern "); show(pat, strlen(pat)); puts(""); bad("wildmat", "returned %d, expected %d", g, w); }
    if (strcmp(a, text) || strcmp(p, pat)) bad("wildmat-src", "arguments changed");
    free(a); free(p);
    count(w ? "wildmat match" : "wildmat no match");
}

static void all(const char *s)
{
    t_names(s); t_case(s); t_words(s); t_utf8(s); t_split(s);
    for (int n = 0; n < 3; n++) t_fmt(s, n);
    size_t l = strlen(s);
    for (size_t n = 1; n <= l + 2; n++) t_filtertext(s, n);
}

/* every string up to length n over the alphabet al */
static void each(const char *al, int na, int n, void (*f)(const char *))
{
    int ix[16] = { 0 };
    char s[17];
    for (int len = 0; len <= n; len++) {
        memset(ix, 0, sizeof ix);
        for (;;) {
            for (int i = 0; i < len; i++) s[i] = al[ix[i]];
            s[len] = 0;
            f(s);
            int i = 0;
            while (i < len && ++ix[i] == na) ix[i++] = 0;
            if (i == len) break;
        }
    }
}

static const char *wp;
static void wt(const char *t) { t_wild(t, wp); }
static int wt_len;
static void wpat(const char *p) { wp = p; each("ab-]", 4, wt_len, wt); }
static void wpat2(const char *p) { wp = p; each("a\xe9^", 3, 2, wt); }

/* ---------------------------------------------------------------- lists */

#define LMAX 300
static char *mod[LMAX]; static int nmod;         /* the model, first to last */
static void freemod(void) { while (nmod) free(mod[--nmod]); }
static void rname(char *b)
{
    static const char *al[] = { "a", "A", "b", "*", "?", "ab", "AB", "aB", "a*", "[ab]", "\\a", "", "x y", "zz", "\xe9" };
    b[0] = 0;
    for (int k = below(3) ? 1 : 2 + below(2); k; k--) strcat(b, al[below(15)]);
    if (below(20) == 0) { int n = below(200); memset(b, 'q', n); b[n] = 0; }
}
static void check_nl(NAMLIST *nl)
{
    STRLIST *p = nl->head, *prev = NULL;
    int i = 0;
    for (; p; prev = p, p = p->next, i++) {
        if (i >= nmod) bad("namelist-extra", "more entries than expected (%d)", nmod);
        if (p->prev != prev) bad("namelist-links", "back link wrong at %d", i);
        if (strcmp(p->str, mod[i])) bad("namelist-order", "entry %d is \"%s\", expected \"%s\"", i, p->str, mod[i]);
    }
    if (i != nmod || nl->tail != prev) bad("namelist-short", "%d entries, expected %d", i, nmod);
    if ((int)nlcount(*nl) != nmod) bad("nlcount", "%u, expected %d", nlcount(*nl), nmod);
}
static void lists(int rounds)
{
    char b[1300];
    for (int r = 0; r < rounds; r++) {
        NAMLIST nl; int mx = 1 + below(below(4) ? 6 : 40), at = 0, steps = 5 + below(80);
        memset(&nl, 0xA5, sizeof nl);
        nlinit(&nl, mx);
        for (int k = 0; k < steps; k++) {
            rname(b);
            char *nm = exacts(b);
            int f = -1, want;
            switch (below(8)) {
            case 0: case 1: case 2:
                nlput(&nl, nm);
                for (int i = 0; i < nmod; i++) if (f < 0 && !strcasecmp(mod[i], b)) f = i;
                if (f < 0 && nmod >= mx) free(mod[--nmod]);
                { char *s = f >= 0 ? mod[f] : strdup(b); int n = f >= 0 ? f : nmod++; memmove(mod + 1, mod, n * sizeof *mod); mod[0] = s; }
                at = 0;
                count(f >= 0 ? "nlput again" : "nlput");
                break;
            case 3:
                for (int i = 0; i < nmod; i++) if (f < 0 && !strcasecmp(mod[i], b)) f = i;
                if (nldelete(&nl, nm) != (f < 0 ? -1 : 0)) bad("nldelete", "wrong result for \"%s\"", b);
                if (f >= 0) { free(mod[f]); memmove(mod + f, mod + f + 1, (--nmod - f) * sizeof *mod); at = 0; }
                count(f >= 0 ? "nldelete" : "nldelete absent");
                break;
            case 4:
                want = 0;
                for (int i = 0; i < nmod; i++) want |= !strcasecmp(mod[i], b);
                if (!!nlpresent(nm, nl) != want) bad("nlpresent", "\"%s\": expected %d", b, want);
                count("nlpresent");
                break;
            case 5:
                want = 0;
                for (int i = 0; i < nmod; i++) want |= !strcmp(mod[i], "*") || ref_wild(b, mod[i]) == 1;
                if (!!nlmatch(nm, nl) != want) bad("nlmatch", "\"%s\": expected %d", b, want);
                count(want ? "nlmatch" : "nlmatch none");
                break;
            case 6:
                for (int n = below(2 * nmod + 1); n; n--) {
                    char *g = nlget(&nl);
                    if (strcmp(g, mod[at])) bad("nlget", "\"%s\", expected \"%s\"", g, mod[at]);
                    at = (at + 1) % nmod;
                    count("nlget");
                }
                break;
            case 7:
                if (below(10) == 0) { nlclear(&nl); freemod(); at = 0; count("nlclear"); }
                break;
            }
            free(nm);
            check_nl(&nl);
        }
        nlclear(&nl); freemod();
        check_nl(&nl);
    }
    /* the plain list below it */
    for (int r = 0; r < rounds; r++) {
        STRLIST *h = NULL, *t = NULL, *p, *prev;
        int ci = below(2), steps = below(40);
        int sorted = below(2);
        for (int k = 0; k < steps; k++) {
            rname(b);
            STRLIST *s = strmakenode(strlen(b));
            if (*s->str) bad("strmakenode", "new node not empty");
            int how = below(7);
            int at = nmod ? below(nmod) : -1, i;
            STRLIST *x = h;
            for (i = 0; i < at; i++) x = x->next;
            strcpy(s->str, b);
            if (sorted) {
                strlinkalpha(s, &h, &t, ci);
                for (i = 0; i < nmod && (ci ? strcasecmp(b, mod[i]) : strcmp(b, mod[i])) >= 0; i++) ;
                count("strlinkalpha");
            } else if (how == 0 || at < 0) { strlinkhead(s, &h, &t); i = 0; }
            else if (how == 1) { strlinktail(s, &h, &t); i = nmod; }
            else if (how == 2) { strlinkafter(s, x, &h, &t); i = at + 1; }
            else if (how == 3) { strlinkbefore(s, x, &h, &t); i = at; }
            else { free(s); i = -1; }
            if (i >= 0) { memmove(mod + i + 1, mod + i, (nmod - i) * sizeof *mod); mod[i] = strdup(b); nmod++; count("strlink"); }
            if (nmod && below(4) == 0) {
                at = below(nmod);
                for (x = h, i = 0; i < at; i++) x = x->next;
                strunlink(x, &h, &t); free(x); free(mod[at]);
                memmove(mod + at, mod + at + 1, (--nmod - at) * sizeof *mod);
                count("strunlink");
            }
            for (p = h, prev = NULL, i = 0; p; prev = p, p = p->next, i++) {
                if (i >= nmod || p->prev != prev || strcmp(p->str, mod[i])) bad("strlist", "wrong list at %d of %d", i, nmod);
            }
            if (i != nmod || t != prev) bad("strlist-end", "%d entries, expected %d", i, nmod);
            rname(b);
            int pat = below(2), c2 = below(2), f = -1;
            for (i = 0; i < nmod && f < 0; i++)
                if (pat ? !strcmp(mod[i], "*") || ref_wild(b, mod[i]) == 1 : c2 ? !strcasecmp(b, mod[i]) : !strcmp(b, mod[i])) f = i;
            p = strgetnode(b, h, c2, pat);
            for (x = h, i = 0; i < f; i++) x = x->next;
            if (p != (f < 0 ? NULL : x)) bad("strgetnode", "\"%s\" case %d pattern %d: wrong node", b, c2, pat);
            count(f < 0 ? "strgetnode none" : "strgetnode");
        }
        while (h) { p = h->next; free(h); h = p; }
        freemod();
    }
}

static void random_texts(int rounds)
{
    static const char *bits[] = { "a", "Z", "0", " ", "\t", "%", "%s", "%%", "%d", "\1", "\2", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3", "\xe2\x82", "\xf0\x9f",
                                  "\x80", "\xff", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "_", "~", "@", "word ", "\xe0\x80", "\xf0\x80\x80\x80" };
    char s[1100];
    for (int r = 0; r < rounds; r++) {
        int n = below(3) ? below(40) : below(900), l = 0;
        while (l < n) {
            if (below(4) == 0) s[l++] = 1 + below(255);
            else { const char *x = bits[below(sizeof bits / sizeof *bits)]; int k = strlen(x); memcpy(s + l, x, k); l += k; }
        }
        s[l] = 0;
        t_names(s); t_case(s); t_words(s); t_utf8(s); t_split(s); t_fmt(s, below(3));
        for (int k = 0; k < 4; k++) t_filtertext(s, 1 + below(l + 3));
        count("random text");
    }
    static const char *pb[] = { "*", "?", "[", "]", "[^", "-", "\\", "a", "b", "@", ".", "[a-c]", "[^a]", "[]a]", "[-a]", "[a-]", "\xe9", "[\x80-\xff]", "ab", "\\*" };
    for (int r = 0; r < rounds; r++) {
        char p[200] = "", t[200] = "";
        for (int k = below(12); k; k--) strcat(p, pb[below(20)]);
        if (below(3)) {
            /* a text made to (nearly) match */
            for (char *q = p; *q; q++) {
                char c[2] = { *q, 0 };
                if (*q == '*') for (int k = below(5); k; k--) strcat(t, below(2) ? "a" : "b");
                else if (*q == '?') strcat(t, "b");
                else if (*q == '[') { strcat(t, below(2) ? "a" : "c"); while (*q && *q != ']') q++; if (!*q) break; }
                else if (*q == '\\') continue;
                else if (below(15)) strcat(t, c);
            }
        } else for (int k = below(20); k; k--) { char c[2] = { "ab@.*-]\xe9"[below(8)], 0 }; strcat(t, c); }
        t_wild(t, p);
    }
}

int main(int argc, char **argv)
{
    unsigned long sd = strtoul(argv[1], 0, 10);
    int depth = atoi(argv[2]), part = atoi(argv[3]);
    seed(sd * 100 + part);
    switch (part) {
    case 0: each("aA %s\x01\t\xc3\xa9\x80", 10, depth >= 2 ? 5 : 4, all); break;
    case 1: each("\x1f\x7f\xc2\xe0\xa0\x9f\xed\xf0\x90\xf4\x8f", 11, depth >= 2 ? 5 : 4, all); break;
    case 2: wt_len = depth >= 2 ? 4 : 3; each("ab*?[]^-\\", 9, depth >= 2 ? 5 : 4, wpat); break;
    case 3: each("a[]^-\xe9*\x80", 8, depth >= 2 ? 6 : 5, wpat2); break;
    case 4: lists(depth >= 2 ? 60000 : 6000); break;
    case 5: random_texts(depth >= 2 ? 400000 : 30000); break;
    }
    summary();
    return 0;
}
