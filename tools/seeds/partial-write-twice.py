PROPERTY = "C26"
NEEDS = "A packet whose sending is interrupted at least twice (a slow reader with a small window, or short writes)."
BREAKS = "On the second partial write of the same packet the position is computed from the start of the packet, so bytes are sent twice and the stream is corrupted."
EDITS = [("pktserv/pktsocket.c", "            msgbuf->pos += result;\n            vmdb(MSG_VERBOSE, \n                 \"writepacket", "            msgbuf->pos = msgbuf->data + result;\n            vmdb(MSG_VERBOSE, \n                 \"writepacket")]
DEMO = '''
s = Server(shim=True)
a = s.user("alice", "demo")
b = s.user("bob", "demo")
a.get(); b.get()
s.set(1, 60)                     # at most 60 bytes per write
text = "".join(chr(97 + i % 26) for i in range(200))
a.send("b", text)
time.sleep(2)
s.set(1, 0)
got = b.get(1)
check(len(got) == 1 and got[0] == b"balice\\1" + text.encode(), "received %r" % got)
'''
