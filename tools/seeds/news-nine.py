PROPERTY = "C28"
NEEDS = "The last of the news files is there."
BREAKS = "It is left out when all news are listed."
EDITS = [("server/s_news.c", "for (i = 1; i < MAX_NEWS_FILES; i++) {", "for (i = 1; i < MAX_NEWS_FILES - 1; i++) {")]
DEMO = '''
s = Server(files={"news.9": b"late news\\n", "news.2": b"some\\n"})
a = s.user("alice", "1")
r = a.cmd("news", "")
check(has(r, "some") and has(r, "late news"), "%r" % r)
'''
