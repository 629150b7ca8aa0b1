PROPERTY = 'C27'
NEEDS = 'The brick option is built in, and somebody who already has the most bricks one can have is hit.'
BREAKS = 'The target gets one brick more than the maximum.'
EDITS = [('server/s_user.c', 'u_tab[t].bricks < MAX_BRICKS && t != n', 'u_tab[t].bricks <= MAX_BRICKS && t != n')]
DEMO = r'''
import re
s = Server(binary=asan("-DICBD_BRICK=ON"))
most = int(re.search(r"define\s+MAX_BRICKS\s+(\d+)", open(CWD + "/icb_config.h").read()).group(1))
a = s.user("alice", "1")
def bricks():
    for x in a.cmd("brick"):
        m = re.search(rb"(\d+) brick", x if isinstance(x, bytes) else str(x).encode())
        if m:
            return int(m.group(1))
for k in range(6):
    b = s.user("bob%d" % k, "1")
    for _ in range(5):
        b.cmd("brick", "alice")
    b.close()
a.get()
have = bricks()
check(have is not None and have > 5, "cannot tell: %r" % have)
check(have <= most, "alice has %d bricks, at most %d are possible" % (have, most))
'''
