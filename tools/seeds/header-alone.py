PROPERTY = "C02"
NEEDS = "A length byte that arrives alone, with nothing of the packet behind it when it is read."
BREAKS = "The length byte is forgotten, so the packet's type is taken for the next length and the stream is cut wrongly from there on."
EDITS = [("pktserv/pktsocket.c", """            /* incomplete read - read_ssl() will never return this. */
            cbuf->state = WANT_READ;
""", """            /* incomplete read - read_ssl() will never return this. */
            cbuf->newmsg = (cbuf->rbuf->pos - cbuf->rbuf->data == PACKET_HEADER_LEN);
            cbuf->state = WANT_READ;
""")]
DEMO = '''
s = Server()
a = s.user("alice", "demo")
b = s.user("bob", "demo")
a.get(); b.get()
f = frame("b", "hello there")
a.raw(f[:1])
time.sleep(.4)
a.raw(f[1:])
got = b.get(.6)
check(got == [b"balice\\1hello there"], "received %r" % got)
check(not a.eof, "disconnected")
'''
