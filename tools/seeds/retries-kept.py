PROPERTY = "C26"
NEEDS = "A client whose connection fills up repeatedly over its life, catching up every time."
BREAKS = "Waits are counted over the whole connection instead of for one packet, so a client that always catches up is disconnected after its eleventh wait."
EDITS = [("pktserv/pktsocket.c", """        /* also reset the retries */
        cbuf->retries = 0;
""", """        /* also reset the retries */
        if (cbuf->retries > MAX_SENDPACKET_RETRIES)
            cbuf->retries = 0;
""")]
DEMO = '''
s = Server(shim=True)
a = s.user("alice", "demo")
b = s.user("bob", "demo")
a.get(); b.get()
for k in range(20):
    s.set(1, 100)
    a.send("b", "%03d " % k + "x" * 150)
    got = b.get(.4)
    s.set(1, 0)
    check(not b.eof, "disconnected at message %d though it read everything" % k)
    check(len(got) == 1, "message %d: %r" % (k, got))
'''
