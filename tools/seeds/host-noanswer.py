PROPERTY = "C25"
NEEDS = "The name somebody gives his address has no address at all."
BREAKS = "The name is believed: he gets what is allowed to, and stays free of what is forbidden to, that host."
EDITS = [("pktserv/getrname.c", """    char orig_numeric[NI_MAXHOST];
    char cand_numeric[NI_MAXHOST];
""", """    char orig_numeric[NI_MAXHOST];
    char cand_numeric[NI_MAXHOST];

    hostbuf[0] = \'\\0\';
"""), ("pktserv/getrname.c", """        return -1;

    /* Step 2: forward lookup (hostname → addresses) */
    memset(&hints""", """        return -1;
    snprintf(hostbuf, hostbuflen, "%s", host);

    /* Step 2: forward lookup (hostname → addresses) */
    memset(&hints"""), ("pktserv/getrname.c", """    freeaddrinfo(res);
    return -1;  /* no match""", """    freeaddrinfo(res);
    hostbuf[0] = \'\\0\';
    return -1;  /* no match"""), ("pktserv/getrname.c", """                                rname, sizeof(rname)) != 0) {
        vmdb(MSG_INFO, "%s fails""", """                                rname, sizeof(rname)) != 0 && rname[0] == \'\\0\') {
        vmdb(MSG_INFO, "%s fails""")]
DEMO = '''
s = Server(shim=True, dns="2>h2.test;22>gone.invalid;23>h2.test;h2.test=2;gone.invalid=;")
for src, name in ((2, "h2.test"), (22, "[127.0.0.22]"), (23, "[127.0.0.23]")):
    a = s.user("alice", "1", src="127.0.0.%d" % src)
    r = a.cmd("whereis", "alice")
    check(has(r, "alice@" + name), "%d: %r" % (src, r))
    a.close()
    time.sleep(.3)
'''
