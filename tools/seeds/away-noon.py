PROPERTY = "C22"
NEEDS = "Somebody with verbose echo sets his away message between noon and one, or midnight and one."
BREAKS = "The time shown to him is 0 o'clock."
EDITS = [("server/s_user.c", """             (t->tm_hour>12) ? (t->tm_hour-12) : ((t->tm_hour==0) ? 12 : t->tm_hour),""",
          """             (t->tm_hour >= 12) ? (t->tm_hour - 12) : t->tm_hour,""")]
DEMO = '''
s = Server(shim=True)
a = s.user("alice", "1")
day = int(time.time()) // 86400 * 86400 + 86400
import re
for i, (h, want) in enumerate(((0, "12:07am"), (1, "1:07am"), (11, "11:07am"), (12, "12:07pm"), (13, "1:07pm"), (23, "11:07pm"))):
    s.freeze(day + h * 3600 + 7 * 60)
    r = a.cmd("away", "gone with %s")
    check(has(r, want), "%r %s" % (r, want))
'''
