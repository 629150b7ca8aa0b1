"""Text and list utilities against independent references."""
import harness


def run(ctx):
    exe = harness.compile("util", ["server/strutil.c", "server/utf8.c", "server/wildmat.c", "server/strlist.c", "server/namelist.c"])
    try:
        depth = ctx.pick(1, 2)
        jobs = [[ctx.seed, depth, p] for p in (0, 1, 2, 3, 4, 5)] + ([[ctx.seed + 1000 * k, depth, p] for k in (1, 2, 3) for p in (4, 5)] if ctx.thorough else [])
        harness.judge(ctx, exe, "util", jobs)
    finally:
        exe.unlink()
    ctx.evaluations = sum(ctx.counts.values())
    for k in ctx.counts:
        ctx.case(k)
    n = sum(v for k, v in ctx.counts.items() if "random" not in k and "again" not in k)
    ctx.distinct = range(n)
    ctx.samples += [dict(wildmat_pattern_alphabet="ab*?[]^-\\", text_alphabet="ab-]"), dict(utf8_alphabet="1f 7f c2 e0 a0 9f ed f0 90 f4 8f"),
                    dict(text_alphabet="a A space % s ^A tab c3 a9 80")]
    ctx.rules.append("Every string up to the stated length over the alphabets below, each with every destination size, plus random long ones; each call is compared with an independent "
                     "reference and runs on exact-size heap copies under ASan/UBSan. Calls on enumerated strings are distinct by construction; random list histories are counted per call.")
