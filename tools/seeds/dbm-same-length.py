PROPERTY = "C15"
NEEDS = "A value is replaced by one of the same length, and the server is killed before anything else in the database changes."
BREAKS = "The change is lost although the user was told it was carried out."
EDITS = [("server/icb_dbm.c", """        free(e->val);
        e->val  = nv;
        e->vlen = content.dsize;
        db->dirty = 1;
""", """        free(e->val);
        e->val  = nv;
        if (e->vlen != content.dsize) {
            e->vlen = content.dsize;
            db->dirty = 1;
        }
""")]
DEMO = '''
s = Server()
a = s.user("alice", "1"); a.cmd("m", "server p one"); a.cmd("m", "server phone 1234")
check(has(a.cmd("m", "server phone 5678"), "set to"), "not set")
s.kill(); s.start()
b = s.user("bob", "1")
check(has(b.cmd("m", "server whois alice"), "5678"), "the change is lost")
'''
