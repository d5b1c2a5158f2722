# properties: C10
"""Tag lists: the parser's table against the grammar of RFC 6376, 3.2."""

import re

from fn import Undecided
from main import Missing
from summ import Lib
import words

F = r"(?:(?:[ \t]*\r\n)?[ \t]+)"
NAME = r"[A-Za-z][A-Za-z0-9_]*"
TVAL = "[!-:<-~\x80-\U0010ffff]+"
VALUE = r"(?:%s(?:%s%s)*)?" % (TVAL, F, TVAL)
SPEC = r"%s?(%s)%s?=%s?(%s)%s?" % (F, NAME, F, F, VALUE, F)
ONE = re.compile(SPEC)
LIST = re.compile("%s(?:;%s)*;?" % ((re.sub(r"\((?!\?)", "(?:", SPEC),) * 2))


def reference(s):
    if not LIST.fullmatch(s):
        return "Syntax"
    tags, i = [], 0
    parts = s.split(";")
    if len(parts) > 1 and not parts[-1]:
        parts.pop()
    for x in parts:
        m = ONE.fullmatch(x)
        tags.append((m.group(1), m.group(2)))
    if len({n for n, _ in tags}) < len(tags):
        return "DuplicateTag"
    return tags


def check(prop, ctx):
    ctx.rule("the parser's decision table, composed of the tables of the functions it calls, accepts exactly the words of the grammar and returns the tags the grammar yields, on all words over the classes of characters distinguished by guards or grammar up to a length, and all one-token changes of longer ones")
    p = ctx.program("default")
    pretty = "tag_list::TagList::<'a>::from_str"
    it = p.find(pretty)
    if it is None:
        c = [x for x in p.items if re.search(r"\bTagList\b.*::from_str$", x["pretty"])]
        if len(c) != 1:
            raise Missing("TagList::from_str")
        it = c[0]
    lib = Lib(p)

    def got(s):
        v = words.plain(lib.value(it["key"], s))
        if isinstance(v, tuple) and v[0] == "Err":
            return v[1]
        if isinstance(v, tuple) and v[0] == "Ok":
            return [(x[1]["name"], x[1]["value"]) for x in v[1]]
        return v

    for s in ("a=b; c = d e ;", "a=b;a=c", "=", "a =\r\n b \r\n c ;"):
        try:
            got(s)
        except Undecided:
            pass
    where = "%s %s" % (p.fns[it["key"]]["span"], it["pretty"])
    ctx.count("functions analysed", len(lib.fns))
    quick = ctx.tier == "quick"
    small = ["a", "1", "=", ";", " ", "\r\n"]
    full = small + ["\t", "_", "\r", "\n", ":", "B", "é", "\x01", "\x7f", "<"]
    cells = set(words.upto(small, 5 if quick else 7)) | set(words.upto(full, 3 if quick else 4))
    ws = list(words.upto([" ", "\t", "\r\n", "\r", "\n"], 3 if quick else 4))
    for w in ws:
        cells |= {w + "a=b", "a" + w + "=b", "a=" + w + "b", "a=b" + w, "a=b" + w + "c", "a=b;" + w + "c=d", "a=b" + w + ";c=d",
                  "a=b;" + w, "a=" + w, "a=" + w + ";", "a=b" + w + ";", "a=b" + w + "c" + w + "d;e=f"}
    long_ = ["a=b;c=d", "ab1_= c d ; e =f;", "v=DKIM1; p=;n=x=y;", "a=b;b=c;a=d", "aa=1;a=2;Aa=3", "a=1;A=2", " x=a\r\n b;", "b=;bh=; =;"]
    cells |= set(words.mutations(long_, full))
    if not quick:
        cells |= set(words.mutations(list(words.mutations(["a=b;c=d", "a = b c;"], small)), small))
    for c in words.representatives(lib):
        c = chr(c)
        cells |= {c, c + "a=b", "a" + c + "=b", "a=" + c, "a=b" + c + "c", "a=b" + c, "a=b;" + c, "a" + c + "c=b", c + "=b", "a=b;" + c + "=d"}
    ctx.count("character classes", len(words.cuts(lib)) - 1)
    words.compare(ctx, "TagList::from_str", sorted(cells), got, reference, where)
    ctx.floor("cells compared", 5000)
    ctx.sample(dict(function=it["pretty"], example=" a = b ; c=d", expected=reference(" a = b ; c=d")))
