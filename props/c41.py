"""C41 the releases documented are the tags newer than the cut-off, newest first."""
from datetime import date
from fluent.docs import tags as docs
from spec import git

ID = "C41"
EXPECT = ["newer", "older", "same day", "foreign"]
NAME = "abcdefghijklmnopqrstuvwxyz"
VERSION = NAME + "0123456789.-+_"
DIGITS = "0123456789"
BOUNDS = ("lists of 0..3 (thorough 4) tags, each of the fluent.* kind (project names of 1..2 more letters, versions of 1..3 characters) or another, "
          "with any dates of 1000..9999 (days 1..28 and 30) in git's order, and any cut-off date of those years")
MONTHS = [["0", [1, "123456789"]], ["1", [1, "012"]]]
DAYS = [["0", [1, "123456789"]], ["1", [1, DIGITS]], ["2", [1, "012345678"]]]


def jobs(tier):
    out = []
    for n in range(0, 4 if tier == "quick" else 5):
        for kinds in range(2 ** n):
            for form in range(6 if n else 1):
                if tier == "quick" and n == 3 and (kinds + form) % 3:
                    continue
                out.append({"name": "%d:%d:%d" % (n, kinds, form), "n": n, "kinds": kinds, "form": form})
    return out


def day(inp, name, form):
    """The text of any date of a kind."""
    y = inp.text(name + "y", [[1, "123456789"], [3, DIGITS]])
    m = inp.text(name + "m", MONTHS[form % 2])
    d = inp.text(name + "d", DAYS[form % 3])
    return y, m, d


def joined(d):
    return d[0] + "-" + d[1] + "-" + d[2]


def newer(a, b):
    """Dates as texts of one length compare like numbers."""
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            if p != q:
                return p > q
    return False


def run(E, inp, job):
    cut = (inp.int("cy", 1000, 9999), inp.int("cm", 1, 12), inp.int("cd", 1, 28))
    tags = []
    want = []
    dates = []
    for i in range(job["n"]):
        d = day(inp, "t%d" % i, job["form"] + i)
        if dates:
            E.assume(not newer(d, dates[-1]))
        dates.append(d)
        if job["kinds"] >> i & 1:
            project = "fluent." + inp.text("p%d" % i, [[1 + i % 2, NAME]])
            version = inp.text("v%d" % i, [[1 + (job["form"] + i) % 3, VERSION]])
            tags.append(git.Tag(project + "@" + version, joined(d), "1970-01-01"))
            n = (int(d[0]), int(d[1]), int(d[2]))
            if n == cut:
                E.tag("same day")
            if n[0] > cut[0] or n[0] == cut[0] and (n[1] > cut[1] or n[1] == cut[1] and n[2] > cut[2]):
                E.tag("newer")
                want.append((project, version, n))
            else:
                E.tag("older")
        else:
            E.tag("foreign")
            tags.append(git.Tag(["fluent-x@1", "other", "v1@2"][i % 3], joined(d)))
    limit = date(cut[0], cut[1], cut[2])
    with git.Commands(tags, [docs]):
        got = docs.get_tag_infos(limit)
    got = list(got)
    E.check(len(got) == len(want), "other releases than those newer than the cut-off")
    for t, (project, version, n) in zip(got, want):
        E.check(t.project == project and t.version == version, "a release of another project or version")
        E.check((t.date.year, t.date.month, t.date.day) == n, "a release has another date")
        E.check(t.tag == project + "@" + version, "a release names another tag")
        E.observe((t.project, t.version, t.tag))
