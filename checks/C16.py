"""The database engine against a map; damaged files."""
import harness

SRC = ["server/icb_dbm.c", "server/icbdb.c", "server/strutil.c", "server/utf8.c", "server/namelist.c", "server/strlist.c", "server/wildmat.c"]
WRAPS = "open read write fsync fdatasync rename unlink".split()


def run(ctx):
    exe = harness.compile("db", SRC, WRAPS)
    try:
        q = ctx.pick(1, 12)
        jobs = [[ctx.seed * 100 + k, 0, 12 * q] for k in range(8)] + [[ctx.seed * 100 + k, 1, 2 * q] for k in range(8)]
        jobs += [[ctx.seed * 100 + k, 2, 6 * q] for k in range(4)] + [[ctx.seed * 100 + k, 3, 60 * q] for k in range(4)]
        harness.judge(ctx, exe, "db", jobs)
    finally:
        exe.unlink()
    ctx.evaluations = sum(v for k, v in ctx.counts.items())
    ctx.distinct = range(sum(v for k, v in ctx.counts.items() if k.split(": ")[1] in ("insert", "replace", "delete", "fetch", "reopen", "odd file refused", "odd file read",
                                                                                       "failing call", "crash point", "icbdb_set", "icbdb_list_add")))
    ctx.samples.append(dict(jobs=[" ".join(map(str, j)) for j in jobs[:3]], meaning="seed, part (0 histories, 1 damaged files, 2 faults, 3 layer above), rounds"))
    ctx.rules.append("Random histories of store/fetch/delete/sync/reopen on databases of up to thousands of keys, compared with an in-memory map call by call and the file with the documented "
                     "format; every truncation and six changes of every byte of small files, plus random damage; every system call of a save failing or ending the process. Non-trivial: "
                     "operations that changed or found something, and files that were odd.")
