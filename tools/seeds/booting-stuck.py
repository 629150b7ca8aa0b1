PROPERTY = "C08"
NEEDS = "Somebody is auto-booted for spamming in group 1, and after that somebody else tries to enter a restricted group."
BREAKS = "The flag that lets a boot override admission stays set after an auto-boot, so from then on everybody gets into restricted groups uninvited."
EDITS = [("server/msgs.c", "                    s_change(n, 2);\n                    is_booting = 0;\n", "                    if (s_change(n, 2) < 0)\n                        is_booting = 0;\n")]
DEMO = '''
s = Server()
m = s.user("mod", "club"); f = s.user("flooder", "1"); o = s.user("outsider", "1")
m.cmd("status", "r")
check(has(o.cmd("g", "club"), "restricted"), "not restricted to begin with")
for _ in range(6):
    f.raw(frame("b", "x") * 6)
    if has(f.get(), "No spamming"):
        break
    time.sleep(.3)
got = o.cmd("g", "club")
check(has(got, "restricted") and not has(got, "now in group"), "entered: %r" % got)
'''
