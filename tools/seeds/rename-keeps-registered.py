PROPERTY = "C13"
NEEDS = "A registered user who changes to a nickname registered by somebody else, without its password."
BREAKS = "He stays registered under the other's name and can read its messages and change its data."
EDITS = [("server/s_user.c", """        memset(u_tab[n].realname, 0, MAX_REALLEN+1);
        ret = nicklookup(-n, u_tab[n].nickname, NULL);
        if (ret == 0) {""", """        ret = nicklookup(-n, u_tab[n].nickname, NULL);
        if (ret == 0) {""")]
DEMO = '''
s = Server()
b = s.user("bob", "1", src="127.0.0.2"); b.cmd("m", "server p bobspw")
b.close()
a = s.user("alice", "1", src="127.0.0.3"); a.cmd("m", "server p alicepw")
a.cmd("name", "bob")
got = a.cmd("m", "server rname Eve")
check(not has(got, "set to"), "changed bob's data: %r" % got)
'''
