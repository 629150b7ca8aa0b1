PROPERTY = "C15"
NEEDS = "The system writes only a part of what it was asked to (disk nearly full, signal)."
BREAKS = "The rest of the record is left out and the damaged file replaces the good one."
EDITS = [("server/icb_dbm.c", """        ssize_t w = write(fd, (const char *)buf + done, n - done);
        if (w <= 0) return -1;
        done += (size_t)w;
""", """        ssize_t w = write(fd, (const char *)buf + done, n - done);
        if (w <= 0) return -1;
        if (done == 0) break;
        done += (size_t)w;
""")]
DEMO = '''
import tempfile
d = tempfile.mkdtemp(prefix="icbdemo."); atexit.register(shutil.rmtree, d, True)
open(d + "/t.c", "w").write(r"""
#include <string.h>
#include <unistd.h>
static ssize_t wr(int fd, const void *b, size_t n) { static int k; if (++k == 5 && n > 1) n /= 2; return write(fd, b, n); }
#define write wr
#include "icb_dbm.c"
int main(void) {
    DBM *db = dbm_open("t", 0, 0600);
    datum k = {"key", 3}, c = {"some value", 10}, k2 = {"other", 5};
    dbm_store(db, k, c, DBM_REPLACE); dbm_store(db, k2, c, DBM_REPLACE);
    dbm_close(db);
    db = dbm_open("t", 0, 0600);
    if (!db) return 1;
    datum r = dbm_fetch(db, k);
    if (r.dsize != 10 || memcmp(r.dptr, "some value", 10)) return 1;
    r = dbm_fetch(db, k2);
    return r.dsize != 10;
}
""")
subprocess.run(["gcc", "-g", "-w", "-I", CWD + "/server", "-I", CWD, "-I", CWD + "/_build", "-o", d + "/t", d + "/t.c"], check=True)
check(subprocess.run([d + "/t"], cwd=d).returncode == 0, "the database is damaged")
'''
