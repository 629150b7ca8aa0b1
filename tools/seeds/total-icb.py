PROPERTY = "C17"
NEEDS = "Exactly one user is in the group where the server's own user lives."
BREAKS = "The group is not counted in the total."
EDITS = [("server/s_who.c", '(count_users_in_group("ICB") > 1))', '(count_users_in_group("ICB") > 2))')]
DEMO = '''
s = Server()
a = s.user("alice", "1"); b = s.user("bob", "1")
for k in range(4):
    while time.time() % 1 > .1:
        time.sleep(.01)
    for i in range(8):
        b.send("b", "spam")
    if has(b.get(), "Boot"):
        break
r = a.cmd("w", "")
check(has(r, "Total: 2 users in 2 groups"), "%r" % r)
'''
