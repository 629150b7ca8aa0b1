/* The database engine and the layer above it against an in-memory map. */
#include <ctype.h>
#include "config.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stddef.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "server/mdb.h"
#include "server/dbm.h"
#include "server/namelist.h"
#include "server/icbdb.h"
#include "h.h"

int icbd_log = -1, log_level = 0;
void mdb(int l, const char *m) { (void)l; (void)m; }
void vmdb(int l, const char *f, ...) { (void)l; (void)f; }
void icbdb_set_multiuser(int);

/* ---------------------------------------------------------------- faults in the system calls a flush makes */
static int f_at, f_mode, f_n;           /* mode 1: fail with EIO, 2: short write, then fail, 3: end the process there, 4: in the middle of a write, 5: 1-byte writes */
static char f_what[64];
static int fault(const char *w) { if (!f_mode) return 0; f_n++; if (f_mode == 5) return 0; if (f_n != f_at) return 0; strcpy(f_what, w); if (f_mode == 3) _exit(70); return 1; }
int __real_open(const char *, int, ...); ssize_t __real_write(int, const void *, size_t); int __real_fsync(int); int __real_rename(const char *, const char *);
int __real_close(int); int __real_unlink(const char *); ssize_t __real_read(int, void *, size_t);
static char ops[4000];                  /* the calls made by a flush, in order */
static int oplog;
static void op(char c) { size_t n = strlen(ops); if (oplog && n < sizeof ops - 1) { ops[n] = c; ops[n + 1] = 0; } }
int __wrap_open(const char *p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if (fl & O_WRONLY || fl & O_RDWR) { op('o'); if (fault("open")) { errno = ENOSPC; return -1; } }
    return __real_open(p, fl, m);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (fd > 2) op('w');
    if (fd > 2 && fault("write")) {
        if (f_mode == 4) { (void)!__real_write(fd, b, n / 2); _exit(70); }
        if (f_mode == 2 && n > 1) return __real_write(fd, b, n / 2);
        errno = ENOSPC; return -1;
    }
    if (f_mode == 5 && n > 1) return __real_write(fd, b, 1 + rnd() % n);
    return __real_write(fd, b, n);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { if (f_mode == 5 && n > 1) n = 1 + rnd() % n; return __real_read(fd, b, n); }
int __wrap_fsync(int fd) { op('s'); if (fault("fsync")) { errno = EIO; return -1; } return __real_fsync(fd); }
int __wrap_fdatasync(int fd) { op('s'); if (fault("fsync")) { errno = EIO; return -1; } return __real_fsync(fd); }
int __wrap_rename(const char *a, const char *b) { op('r'); if (fault("rename")) { errno = EIO; return -1; } return __real_rename(a, b); }
int __wrap_unlink(const char *a) { op('u'); return __real_unlink(a); }

/* ---------------------------------------------------------------- the map */
#define M 6000
typedef struct { char *k, *v; int kl, vl; } ent;
static ent m[M]; static int nm;
static int mfind(const char *k, int kl) { for (int i = 0; i < nm; i++) if (m[i].kl == kl && !memcmp(m[i].k, k, kl)) return i; return -1; }
static void mset(const char *k, int kl, const char *v, int vl)
{
    int i = mfind(k, kl);
    if (i < 0) { i = nm++; m[i].k = exact(k, kl); m[i].kl = kl; } else free(m[i].v);
    m[i].v = exact(v, vl); m[i].vl = vl;
}
static void mdel(int i) { free(m[i].k); free(m[i].v); m[i] = m[--nm]; }
static void mclear(void) { while (nm) mdel(nm - 1); }

static datum D(const char *p, int n) { datum d; d.dptr = (char *)p; d.dsize = n; return d; }
static unsigned le(const unsigned char *b) { return b[0] | b[1] << 8 | b[2] << 16 | (unsigned)b[3] << 24; }
static char *slurp(const char *f, long *n)
{
    FILE *p = fopen(f, "rb"); if (!p) return NULL;
    fseek(p, 0, SEEK_END); *n = ftell(p); rewind(p);
    char *b = malloc(*n + 1); if (fread(b, 1, *n, p) != (size_t)*n) abort();
    fclose(p); return b;
}
/* the file holds exactly the map, in the documented format; 0 if not */
static int file_is_map(const char *f, const char **why)
{
    long n; char *b = slurp(f, &n);
    if (!b) { *why = "no file"; return nm == 0; }
    unsigned char *p = (unsigned char *)b;
    int ok = 0;
    *why = "bad header";
    if (n < 8 || memcmp(b, "IDB\1", 4)) goto out;
    *why = "wrong count";
    if (le(p + 4) != (unsigned)nm) goto out;
    char *seen = calloc(nm + 1, 1);
    long at = 8;
    *why = "records differ";
    for (int i = 0; i < nm; i++) {
        if (at + 8 > n) goto out2;
        unsigned kl = le(p + at), vl = le(p + at + 4);
        if (kl > (unsigned)n || vl > (unsigned)n || at + 8 + kl + vl > n) goto out2;
        int j = mfind(b + at + 8, kl);
        if (j < 0 || seen[j] || m[j].vl != (int)vl || memcmp(m[j].v, b + at + 8 + kl, vl)) goto out2;
        seen[j] = 1;
        at += 8 + kl + vl;
    }
    *why = "something after the records";
    ok = at == n;
out2:
    free(seen);
out:
    free(b);
    return ok;
}
static void check_all(DBM *db, const char *when)
{
    for (int i = 0; i < nm; i++) {
        datum d = dbm_fetch(db, D(m[i].k, m[i].kl));
        if (!d.dptr || d.dsize != m[i].vl || memcmp(d.dptr, m[i].v, d.dsize)) bad("fetch-all", "%s: key %d of %d wrong (%d bytes, expected %d)", when, i, nm, d.dptr ? d.dsize : -1, m[i].vl);
        if (d.dptr[d.dsize]) bad("fetch-nul", "value not terminated");
        count("fetch verified");
    }
}
static int rkey(char *k, int universe)
{
    int n = below(universe), l = 0;
    switch (n % 5) {
    case 0: l = sprintf(k, "nick%d.password", n); break;
    case 1: l = sprintf(k, "k%d", n); break;
    case 2: memset(k, 0, 40); l = 1 + n % 37; k[l - 1] = n; k[0] ^= n >> 8; break;
    case 3: l = 200 + n % 60; memset(k, 'x', l); memcpy(k + n % 150, &n, 4); break;
    case 4: l = n % 7 == 4 ? 0 : sprintf(k, "%x", n); break;
    }
    return l;
}
static int rval(char *v)
{
    int l = below(4) ? below(30) : below(10) ? below(5000) : below(40) ? 0 : below(200000);
    if (!below(1500)) l = (1 << 20) + below(3) - 1;      /* (what can be stored must be there again) */
    for (int i = 0; i < l; i++) v[i] = rnd();
    return l;
}
static char kb[400], vb[(1 << 20) + 16];

static DBM *xopen(const char *f) { DBM *d = dbm_open(f, O_RDWR, 0600); if (!d) bad("open", "cannot open a good database: %s", strerror(errno)); count("open"); return d; }

static void histories(int rounds)
{
    const char *why = "";
    for (int r = 0; r < rounds; r++) {
        char f[40], fn[50];
        sprintf(f, "h%d", r); sprintf(fn, "h%d.db", r);
        int uni = 3 + (below(3) ? below(40) : below(1500)), steps = 20 + below(uni > 100 ? 4000 : 300);
        DBM *db = xopen(f);
        int dirty = 0, left = 0;       /* (left: a temporary file of somebody who crashed is there) */
        for (int s = 0; s < steps; s++) {
            int kl = rkey(kb, uni), i = mfind(kb, kl), x = below(100);
            char *k = exact(kb, kl);
            if (x < 45) {
                int vl = rval(vb), fl = below(3) ? DBM_REPLACE : DBM_INSERT;
                char *v = exact(vb, vl);
                int rc = dbm_store(db, D(k, kl), D(v, vl), fl);
                int want = i >= 0 && fl == DBM_INSERT ? 1 : 0;
                if (vl > 100000 && rc == -1) { want = -1; count("too big, refused"); }
                if (rc != want) bad("store", "returned %d, expected %d", rc, want);
                if (!rc) { mset(k, kl, v, vl); dirty = 1; }
                memset(v, 'J', vl); free(v);             /* (the engine has its own copy) */
                if (want >= 0) count(want ? "insert refused" : i >= 0 ? "replace" : "insert");
            } else if (x < 65) {
                datum d = dbm_fetch(db, D(k, kl));
                if ((d.dptr != NULL) != (i >= 0)) bad("fetch", i >= 0 ? "stored key not found" : "absent key found");
                if (i >= 0 && (d.dsize != m[i].vl || memcmp(d.dptr, m[i].v, d.dsize))) bad("fetch-value", "wrong value");
                count(i >= 0 ? "fetch" : "fetch absent");
                if (i >= 0 && below(3) == 0) {
                    /* what was fetched stays good until the next fetch */
                    char *keep = exact(d.dptr, d.dsize); int n = d.dsize;
                    if (dbm_delete(db, D(k, kl))) bad("delete", "failed");
                    dirty = 1;
                    if (memcmp(keep, d.dptr, n)) bad("fetch-stable", "fetched value changed by a delete");
                    mdel(i); free(keep);
                    count("delete after fetch");
                }
            } else if (x < 85) {
                int rc = dbm_delete(db, D(k, kl));
                if (rc != (i >= 0 ? 0 : -1)) bad("delete", "returned %d, key %s", rc, i >= 0 ? "present" : "absent");
                if (i >= 0) { mdel(i); dirty = 1; }
                count(i >= 0 ? "delete" : "delete absent");
            } else if (x < 88) {
                datum d = dbm_fetch(db, D(NULL, 5));
                if (d.dptr) bad("null", "found a null key");
                if (dbm_store(db, D(NULL, 0), D("x", 1), DBM_REPLACE) != -1 || dbm_store(db, D("k", 1), D(NULL, 3), DBM_REPLACE) != -1 || dbm_delete(db, D(NULL, 0)) != -1) bad("null", "null key or value accepted");
                if (dbm_sync(NULL) != -1) bad("null", "no database synced");
                dbm_close(NULL);
                count("nulls refused");
            } else if (x < 91) {
                if (dbm_sync(db)) bad("sync", "failed: %s", strerror(errno));
                if (dirty) left = 0;
                dirty = 0;
                if (nm || access(fn, 0) == 0) if (!file_is_map(fn, &why)) bad("sync-file", "after sync: %s", why);
                count("sync");
            } else if (x < 94) {
                dbm_close(db);
                if (dirty && !file_is_map(fn, &why)) bad("close-file", "after close: %s", why);
                if (dirty) left = 0;
                dirty = 0;
                char tmp[60]; sprintf(tmp, "%s.tmp", fn);
                if (!left && access(tmp, 0) == 0) bad("tmp", "temporary file left behind");
                if (below(3) == 0) {
                    FILE *t = fopen(tmp, "w");
                    fputs("left over from a crash", t);
                    for (int j = below(4) ? below(3000) : below(400000); j > 0; j--) putc('x', t);
                    fclose(t);
                    left = 1;
                }
                if (below(3) == 0) f_mode = 5;
                db = xopen(f);
                check_all(db, "reopened");
                f_mode = 0;
                if (left && below(2)) { unlink(tmp); left = 0; }
                count("reopen");
            }
            free(k);
        }
        check_all(db, "end");
        dbm_close(db);
        /* nothing but the keys stored: as many records as keys, each found */
        if (dirty || access(fn, 0) == 0) if (!file_is_map(fn, &why)) bad("final-file", "%s", why);
        mclear();
        unlink(fn);
        strcat(fn, ".tmp"); unlink(fn);
        count("history");
    }
}

/* ---------------------------------------------------------------- files that are not what they should be */
static void try_file(const char *data, long n, int must_refuse, const char *what)
{
    FILE *p = fopen("c.db", "wb"); fwrite(data, 1, n, p); fclose(p);
    DBM *db = dbm_open("c", O_RDWR, 0600);
    if (db && must_refuse) bad("damaged-accepted", "%s (%ld bytes)", what, n);
    if (db) {
        for (int i = 0; i < nm && i < 40; i++) { datum d = dbm_fetch(db, D(m[i].k, m[i].kl)); if (d.dptr) { volatile char c = 0; for (int j = 0; j <= d.dsize; j++) c ^= d.dptr[j]; } }
        if (below(2)) { dbm_store(db, D("new", 3), D("v", 1), DBM_REPLACE); dbm_delete(db, D(m[0].k, m[0].kl)); dbm_close(db);
            db = dbm_open("c", O_RDWR, 0600);
            if (!db) bad("damaged-resaved", "%s: what was saved again cannot be read", what);
            datum d = dbm_fetch(db, D("new", 3)); if (!d.dptr || d.dsize != 1) bad("damaged-store", "%s: stored value lost", what);
            dbm_close(db);
        } else {
            dbm_close(db);
            long k; char *b = slurp("c.db", &k);
            if (k != n || memcmp(b, data, n)) bad("damaged-rewritten", "%s: file changed without a change being made", what);
            free(b);
        }
        count("odd file read");
    } else {
        long k; char *b = slurp("c.db", &k);
        if (!b || k != n || memcmp(b, data, n)) bad("refused-rewritten", "%s: refused file changed", what);
        free(b);
        count("odd file refused");
    }
}
static void damaged(int rounds)
{
    for (int r = 0; r < rounds; r++) {
        int ne = 1 + below(6);
        for (int i = 0; i < ne; i++) { int kl = sprintf(kb, "user%d.%s", i, below(2) ? "password" : "message0"); int vl = below(below(3) ? 12 : 60); for (int j = 0; j < vl; j++) vb[j] = rnd(); mset(kb, kl, vb, vl); }
        DBM *db = xopen("good");
        for (int i = 0; i < nm; i++) dbm_store(db, D(m[i].k, m[i].kl), D(m[i].v, m[i].vl), DBM_REPLACE);
        dbm_close(db);
        long n; char *g = slurp("good.db", &n), *x = malloc(n + 400);
        if (!g) bad("damaged-setup", "no file written");
        for (long t = 0; t < n; t++) try_file(g, t, 1, "truncated");
        for (long t = 0; t < n; t++) {
            static const unsigned char vals[] = { 0, 1, 0x7f, 0x80, 0xff };
            for (int v = 0; v < 5; v++) { memcpy(x, g, n); x[t] = vals[v]; try_file(x, n, t < 4 && vals[v] != (unsigned char)g[t], "byte changed"); }
            memcpy(x, g, n); x[t] ^= 1 << below(8); try_file(x, n, t < 4, "bit flipped");
        }
        for (int k = 0; k < 60; k++) {
            memcpy(x, g, n);
            long l = n;
            switch (below(5)) {
            case 0: for (int j = 1 + below(8); j; j--) x[below(n)] = rnd(); break;
            case 1: { long e = below(300); for (long j = 0; j < e; j++) x[n + j] = rnd(); l += e; break; }
            case 2: l = below(n + 300); for (long j = 0; j < l; j++) x[j] = rnd(); if (l >= 4 && below(2)) memcpy(x, "IDB\1", 4); break;
            case 3: memcpy(x + 4, "\xff\xff\xff\xff", 4); break;
            case 4: { long at = 8 + 4 * below(2); unsigned big = below(2) ? 1u << 20 : (1u << 20) + 1; memcpy(x + at, &big, 4); break; }
            }
            try_file(x, l, 0, "random damage");
        }
        free(g); free(x);
        mclear(); unlink("good.db"); unlink("c.db");
        count("base file");
    }
    if (mkdir("d.db", 0700) == 0) { DBM *db = dbm_open("d", O_RDWR, 0600); if (db) bad("directory", "opened a directory"); rmdir("d.db"); }
}

/* ---------------------------------------------------------------- faults and crashes while saving */
static void fill(DBM *db, int n) { for (int i = 0; i < n; i++) { int kl = rkey(kb, 60), vl = below(40); for (int j = 0; j < vl; j++) vb[j] = rnd(); if (dbm_store(db, D(kb, kl), D(vb, vl), DBM_REPLACE)) bad("store", "failed"); mset(kb, kl, vb, vl); } }
static void faults(int rounds)
{
    const char *why = "";
    for (int r = 0; r < rounds; r++) {
        unlink("f.db"); unlink("f.db.tmp");
        DBM *db = xopen("f");
        fill(db, 1 + below(8));
        if (dbm_sync(db)) bad("sync", "failed");
        if (!file_is_map("f.db", &why)) bad("sync-file", "%s", why);
        for (int mode = 1; mode <= 4; mode++) for (int at = 1; ; at++) {
            /* make a change and save it, with the at-th system call going wrong */
            long n0; char *old = slurp("f.db", &n0);
            fill(db, 1 + below(3));
            int rc = 0, st = 0;
            if (mode <= 2) { f_mode = mode; f_at = at; f_n = 0; f_what[0] = 0; rc = dbm_sync(db); f_mode = 0; }
            else {
                fflush(stdout);
                pid_t p = fork();
                if (!p) { f_mode = mode; f_at = at; f_n = 0; dbm_sync(db); _exit(f_n < at ? 0 : mode == 4 ? 71 : 1); }
                waitpid(p, &st, 0);
                st = WEXITSTATUS(st);
            }
            int hit = mode <= 2 ? f_what[0] != 0 : st != 0;
            int isnew = file_is_map("f.db", &why);
            long n1; char *now = slurp("f.db", &n1);
            int isold = now && n1 == n0 && !memcmp(now, old, n0);
            if (!isnew && !isold) bad("torn", "mode %d call %d (%s): the file is neither the old nor the new database", mode, at, f_what);
            if (mode <= 2 && rc == 0 && !isnew) bad("sync-lied", "sync reported success after a fault in call %d (%s) but the file is the old one", at, f_what);
            if (mode <= 2 && mode == 1 && hit && rc == 0 && strcmp(f_what, "")) bad("sync-fault", "sync reported success although %s failed", f_what);
            if (!hit && mode <= 2 && rc) bad("sync", "failed without a fault");
            count(hit ? (mode <= 2 ? "failing call" : "crash point") : "no more calls");
            free(old); free(now);
            check_all(db, "after a fault");
            if (dbm_sync(db)) bad("sync-again", "saving failed after an earlier fault");
            if (!file_is_map("f.db", &why)) bad("sync-again", "after an earlier fault: %s", why);
            if (!hit) break;
        }
        /* the order of the calls: everything written and synced before the rename */
        fill(db, 2); ops[0] = 0; oplog = 1;
        if (dbm_sync(db)) bad("sync", "failed");
        oplog = 0;
        char *rn = strrchr(ops, 'r'), *lw = strrchr(ops, 'w'), *sy = strrchr(ops, 's');
        if (rn && (!sy || sy > rn || lw > sy)) bad("order", "written data not synced before the rename: %s", ops);
        if (!rn && lw) bad("order", "database overwritten in place: %s", ops);
        count("call order");
        /* nothing to do: nothing done */
        ops[0] = 0; oplog = 1; dbm_sync(db); oplog = 0;
        dbm_close(db);
        db = xopen("f"); check_all(db, "reopened"); dbm_close(db);
        mclear();
        count("fault round");
    }
}

/* ---------------------------------------------------------------- the layer above */
static void layer(int rounds)
{
    for (int r = 0; r < rounds; r++) {
        unlink("icbdb.db");
        char *set[64]; int ns = 0, max_seen = 0;
        NAMLIST nl;
        static const char *cats[] = { "alice", "Bob", "CAROL", "x", NULL, "a-category-whose-name-is-longer-than-any-nickname" }, *atts[] = { "password", "Text", "MAX", "n.1", "an-attribute-whose-name-is-longer-than-others", "an-attribute-whose-name-is-longer-than-other" };
        char want[6][6][64]; int has[6][6]; memset(has, 0, sizeof has);
        for (int s = 0; s < 120; s++) {
            int c = below(6), a = below(6), x = below(12);
            char cbuf[64] = "", *cc = cbuf, aa[64], val[64];
            if (cats[c]) strcpy(cc, cats[c]); strcpy(aa, atts[a]);
            for (char *p = cc; *p; p++) if (below(2)) *p = below(2) ? toupper(*p) : tolower(*p);
            for (char *p = aa; *p; p++) if (below(2)) *p = below(2) ? toupper(*p) : tolower(*p);
            if (!cats[c]) cc = NULL;
            sprintf(val, "v%u %s", rnd() % 1000, below(2) ? "%s|" : "");
            char *got = NULL; int num;
            if (x < 3) {
                if (below(3) == 0) { num = (int)(rnd() - (1u << 30)); sprintf(val, "%d", num); icbdb_set(cc, aa, ICBDB_INT, &num); }
                else { char *e = exacts(val); icbdb_set(cc, aa, ICBDB_STRING, e); free(e); }
                strcpy(want[c][a], val); has[c][a] = 1; count("icbdb_set");
            } else if (x < 6) {
                int rc = icbdb_get(cc, aa, ICBDB_STRING, &got);
                if (!!rc != has[c][a]) bad("icbdb_get", "%s.%s: returned %d", cc, aa, rc);
                if (rc && strcmp(got, want[c][a])) bad("icbdb_get-value", "%s.%s: \"%s\", expected \"%s\"", cc, aa, got, want[c][a]);
                if (rc) { num = -7; icbdb_get(cc, aa, ICBDB_INT, &num); if (num != atoi(want[c][a])) bad("icbdb_get-int", "%d for \"%s\"", num, want[c][a]); }
                count(rc ? "icbdb_get" : "icbdb_get absent");
            } else if (x < 7) { icbdb_delete(cc, aa); has[c][a] = 0; count("icbdb_delete");
            } else if (x < 9) {
                char it[20]; sprintf(it, "item%d", below(12));
                int i; for (i = 0; i < ns && strcmp(set[i], it); i++) ;
                icbdb_list_add("group", "members", ICBDB_STRING, it);
                if (i == ns) set[ns++] = strdup(it);
                count("icbdb_list_add");
            } else if (x < 10) {
                char it[20]; sprintf(it, "item%d", below(12));
                int i; for (i = 0; i < ns && strcmp(set[i], it); i++) ;
                icbdb_list_delete("group", "members", ICBDB_STRING, it);
                if (i < ns) { free(set[i]); set[i] = set[--ns]; }
                count("icbdb_list_delete");
            } else if (x < 11) {
                nlinit(&nl, 100);
                icbdb_list_load("group", "members", &nl);
                if ((int)nlcount(nl) != ns) bad("icbdb_list_load", "%u entries, expected %d", nlcount(nl), ns);
                for (int i = 0; i < ns; i++) if (!nlpresent(set[i], nl)) bad("icbdb_list_load", "%s lost", set[i]);
                nlclear(&nl);
                count("icbdb_list_load");
            } else if (below(4) == 0) {
                icbdb_list_clear("group", "members");
                while (ns) free(set[--ns]);
                count("icbdb_list_clear");
            } else { icbdb_set_multiuser(1); icbdb_set_multiuser(0); count("icbdb reopened"); }
        }
        while (ns) free(set[--ns]);
        icbdb_list_clear("group", "members");
        icbdb_set_multiuser(1); icbdb_set_multiuser(0);
        (void)max_seen;
        int n = 0;
        for (int i = 0; i < 36; i++) n += has[i / 6][i % 6];
        long l; char *f = slurp("icbdb.db", &l); unsigned have;
        if (f) {
            if (l >= 8 && (memcpy(&have, f + 4, 4), have) != (unsigned)n) bad("icbdb-records", "%u records in the file, %d are set", have, n);
            free(f);
        }
        struct stat st;
        if (stat("icbdb.db", &st) == 0 && st.st_mode & 077) bad("icbdb-mode", "the database can be read by others: %o", st.st_mode & 0777);
    }
    unlink("icbdb.db");
}

int main(int argc, char **argv)
{
    seed(strtoul(argv[1], 0, 10) * 16 + atoi(argv[2]));
    int n = atoi(argv[3]);
    switch (atoi(argv[2])) {
    case 0: histories(n); break;
    case 1: damaged(n); break;
    case 2: faults(n); break;
    case 3: layer(n); break;
    }
    summary();
    return 0;
}
