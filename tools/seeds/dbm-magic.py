PROPERTY = 'C16'
NEEDS = 'The file is of another version of the format, which differs only in the last byte of its signature.'
BREAKS = 'A file of another version is taken for a database, and overwritten.'
EDITS = [('server/icb_dbm.c', '    if (memcmp(hdr, ICB_DBM_MAGIC, 4) != 0)      {', '    if (memcmp(hdr, ICB_DBM_MAGIC, 3) != 0)      {')]
DEMO = r'''
d = tempfile.mkdtemp(prefix="icbdemo.")
atexit.register(shutil.rmtree, d, True)
open(d + "/t.db", "wb").write(b"IDB\2" + struct.pack("<I", 0))
open(d + "/t.c", "w").write("""
#include <stdio.h>
#include <fcntl.h>
#include "dbm.h"
int main(void) { DBM *d = dbm_open("t", O_RDWR, 0600); return d != 0; }
""")
inc = [x for x in (CWD + "/_build", CWD + "/_build/server", CWD + "/server", CWD) if os.path.isdir(x)]
subprocess.run(["gcc", "-w"] + [y for x in inc for y in ("-I", x)] + ["-o", d + "/t", d + "/t.c", CWD + "/server/icb_dbm.c"], check=True)
check(subprocess.run([d + "/t"], cwd=d).returncode == 0, "a file of another version is accepted")
'''
