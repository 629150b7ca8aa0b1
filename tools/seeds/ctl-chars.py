PROPERTY = 'C03'
NEEDS = 'A client sends a message with control characters other than the field separator, for instance an escape sequence.'
BREAKS = 'Control characters reach the other clients.'
EDITS = [('server/strutil.c', 'if (codepoint >= 0x20 && codepoint <= 0x7F) {', 'if (codepoint != 0x01 && codepoint <= 0x7F) {')]
DEMO = r'''
s = Server()
a = s.user("alice", "1"); b = s.user("bob", "1")
a.get()
b.send("b", b"hello \x1b[2J there")
time.sleep(.3)
r = a.get()
check(has(r, "there"), "nothing arrived: %r" % r)
check(not has(r, b"\x1b"), "an escape sequence arrives: %r" % r)
'''
