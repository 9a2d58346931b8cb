"""C42 the documentation build produces every development and every newer release version, linked to each other."""
import os
import shutil
import tempfile
from datetime import date
from pathlib import Path
from fluent.docs import build_root, finalize_builddir, tags
from fluent.docs.build import build as build_all
from spec import git

ID = "C42"
EXPECT = ["released", "unreleased", "too old", "other project", "no cut-off", "old link", "old directory", "dangling link"]
POOL = ["fluent.syntax", "fluent.runtime", "fluent.pygments"]
OTHERS = ["fluent.syntax", "fluent.runtime", "fluent.docs"]
DIGITS = "0123456789"
VERSIONS = [["9.0", "v8.1", "8.0b1"], ["0.0.1", "10.0", "9.9"], ["0.1-dev", "v0.0", "dev2"], ["1", "2.0rc1", "latest"], ["devel", "0", "0.0.0"]]
BOUNDS = ("1..2 (thorough 3) projects out of 3 in either order, 0..3 tags (of any of 15 versions) each of any of three projects and of any day of a month, any cut-off day of that "
          "month or none; an earlier stable version linked, copied, linked but gone, or absent; git and sphinx-build replaced by stand-ins that record "
          "what they are asked, in a scratch directory")


def jobs(tier):
    out = []
    lists = [["fluent.syntax"], ["fluent.runtime", "fluent.syntax"], ["fluent.syntax", "fluent.pygments"]]
    if tier == "thorough":
        lists += [["fluent.pygments", "fluent.syntax", "fluent.runtime"], ["fluent.runtime"]]
    for i, projects in enumerate(lists):
        for n in range(0, 4):
            for after in (True, False) if n < 2 else (True,):
                for old in ("none", "link", "dir", "gone") if n < 3 or tier == "thorough" else ("link",):
                    out.append({"name": "%d:%d:%s:%s" % (i, n, after, old), "projects": projects, "n": n, "after": after, "old": old,
                                "at": len(out) % len(VERSIONS)})
    return out


class World:
    """What the commands were asked, and what they leave behind."""

    def __init__(self):
        self.builds = []
        self.trees = {}
        self.problem = None

    def __call__(self, words, cwd, env):
        if words[:3] == ["git", "worktree", "add"]:
            _, rest = git.options(words[3:])
            path = os.path.abspath(os.path.join(cwd or ".", rest[0]))
            os.makedirs(path, exist_ok=True)
            self.trees[path] = rest[1] if len(rest) > 1 else "HEAD"
            for p in POOL + ["fluent.docs"]:
                os.makedirs(os.path.join(path, p, "docs"), exist_ok=True)
        elif words[:3] == ["git", "worktree", "remove"]:
            _, rest = git.options([w for w in words[3:] if w != "-f"])
            shutil.rmtree(os.path.join(cwd or ".", rest[0]), ignore_errors=True)
        elif words[:3] == ["git", "worktree", "prune"]:
            pass
        elif words[:1] == ["git"] and "checkout" in words:
            if words[1] == "-C":
                cwd = words[2]
            path = os.path.abspath(cwd or ".")
            if path not in self.trees:
                self.problem = "another working tree was switched to a release"
            rest = [w for w in words[words.index("checkout") + 1:] if not w.startswith("-")]
            self.trees[path] = rest[0]
        elif words[:1] == ["sphinx-build"]:
            self.sphinx(words[1:], cwd or ".", env or {})
        else:
            raise git.Unknown(words)

    def sphinx(self, words, cwd, env):
        defs = {}
        rest = []
        i = 0
        while i < len(words):
            if words[i] in ("-D", "-A"):
                k, _, v = words[i + 1].partition("=")
                defs[k] = v
                i += 1
            elif words[i] in ("-c", "-d", "-b", "-j", "-t"):
                i += 1
            elif not words[i].startswith("-"):
                rest.append(words[i])
            i += 1
        src = os.path.abspath(os.path.join(cwd, rest[0]))
        dest = os.path.abspath(os.path.join(cwd, rest[1]))
        at = "HEAD"
        for t, name in self.trees.items():
            if src.startswith(t + "/"):
                at = name
                src = "<tree>" + src[len(t):]
        html = None
        page = Path(rest[0]) / "_templates" / "versions.html"
        if page.exists():
            html = page.read_text()
        path = env.get("PYTHONPATH")
        if path is not None:
            path = os.path.abspath(path)
            for t in self.trees:
                if path.startswith(t + "/"):
                    path = "<tree>" + path[len(t):]
        self.builds.append({"src": src, "dest": dest, "defs": defs, "at": at, "html": html, "path": path})
        os.makedirs(os.path.join(dest, "_static"), exist_ok=True)
        for f in ("theme.css", "documentation_options.js", "extra.js"):
            Path(dest, "_static", f).write_text(f)
        Path(dest, "index.html").write_text("docs")


def links(html):
    return [x[:x.index("\"")] for x in html.split("href=\"")[1:]]


def run(E, inp, job):
    top = os.path.realpath(tempfile.mkdtemp(prefix="verif-docs-"))
    cwd = os.getcwd()
    before = tempfile.tempdir
    try:
        os.chdir(top)
        os.mkdir("tmp")
        tempfile.tempdir = os.path.join(top, "tmp")
        world(E, inp, job, top)
    finally:
        tempfile.tempdir = before
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def world(E, inp, job, top):
    projects = job["projects"]
    limit = inp.int("limit", 1, 28) if job["after"] else None
    repo = "python-fluent"
    listed = []
    last = None
    releases = {p: [] for p in projects}
    for i in range(job["n"]):
        tens = inp.choice("t%d" % i, ["0", "1", "2"])
        ones = inp.text("d%d" % i, [[1, "123456789" if tens == "0" else "012345678"]])
        day = int(tens) * 10 + int(ones)
        if last is not None:
            E.assume(day <= last)
        last = day
        p = inp.choice("p%d" % i, OTHERS)
        version = VERSIONS[job["at"]][i]
        listed.append(git.Tag(p + "@" + version, "2021-03-" + tens + ones, "1970-01-01"))
        if limit is None:
            E.tag("no cut-off")
        elif not day > limit:
            E.tag("too old")
        elif p not in projects:
            E.tag("other project")
        else:
            releases[p].append(version)
    for p in ["."] + POOL + ["fluent.docs"]:
        os.makedirs(os.path.join(p, "docs"))
    for p in projects:
        base = Path("_build", repo, p)
        if job["old"] == "gone":
            base.mkdir(parents=True)
            (base / "stable").symlink_to("7.0", target_is_directory=True)
            E.tag("dangling link")
        elif job["old"] != "none":
            (base / "7.0").mkdir(parents=True)
            (base / "7.0" / "index.html").write_text("old")
            if job["old"] == "link":
                (base / "stable").symlink_to("7.0", target_is_directory=True)
                E.tag("old link")
            else:
                (base / "stable").mkdir()
                (base / "stable" / "index.html").write_text("old")
                E.tag("old directory")
    state = World()
    asked = list(projects)
    with git.Commands(listed, [tags, builder_module()], state):
        build_root(repo)
        build_all(repo, asked, date(2021, 3, limit) if job["after"] else None)
        finalize_builddir(repo)
    E.check(asked == projects, "the list of projects was changed")
    E.check(state.problem is None, str(state.problem))
    want = [dict(src=top + "/docs", dest=top + "/_build/" + repo, at="HEAD", version=None, project=None)]
    for p in projects:
        E.tag("released" if releases[p] else "unreleased")
        want.append(dict(src=top + "/" + p + "/docs", dest=top + "/_build/" + repo + "/" + p + "/dev", at="HEAD", version="dev", project=p))
        for v in releases[p]:
            want.append(dict(src="<tree>/" + p + "/docs", dest=top + "/_build/" + repo + "/" + p + "/" + v, at=p + "@" + v, version=v,
                             project=p))
    E.check(len(state.builds) == len(want), "other versions were built than the development and the newer release versions")
    for w in want:
        found = [b for b in state.builds if b["dest"] == w["dest"]]
        E.check(len(found) == 1, "a version is not built, or twice")
        b = found[0]
        E.check(b["src"] == w["src"] and b["at"] == w["at"], "a version is built from other sources")
        E.check(b["defs"].get("root_url") == "/" + repo, "a version refers to another root")
        p = w["project"]
        if p is None:
            continue
        E.check(b["defs"].get("project") == p, "a version is built for another project")
        E.check(b["defs"].get("release") == (None if w["version"] == "dev" else w["version"]), "a version is built for another release")
        E.check(b["path"] == w["src"][:-5], "a version documents other modules")
        names = ["dev", "stable"] + releases[p] if releases[p] else ["dev"]
        E.check(links(b["html"]) == ["/" + repo + "/" + p + "/" + v for v in names], "a version links to other versions")
        E.check("<span class=\"version\">" + w["version"] + "</span>" in b["html"], "a version shows another name")
        E.check(sorted(os.listdir(w["dest"] + "/_static")) == ["documentation_options.js"], "static files of the theme stay in a version")
    for p in projects:
        base = "_build/" + repo + "/" + p
        target = "stable" if releases[p] else "dev"
        E.check("URL=" + target + "/" in Path(base, "index.html").read_text(), "the start page of a project leads elsewhere")
        link = base + "/stable"
        if releases[p]:
            E.check(os.path.realpath(link) == top + "/" + base + "/" + releases[p][0], "the stable version is not the newest release")
            E.check(Path(link, "index.html").read_text() == "docs", "the stable version is another one")
        elif job["old"] == "gone":
            E.check(not os.path.exists(link), "a stable version without a release")
        elif job["old"] == "none":
            E.check(not os.path.lexists(link), "a stable version without a release")
        else:
            E.check(Path(link, "index.html").read_text() == "old", "the stable version was lost")
        if job["old"] in ("link", "dir"):
            E.check(Path(base, "7.0", "index.html").read_text() == "old", "an earlier version was lost")
    E.check(os.listdir("tmp") == [], "the working tree of the releases stays behind")
    E.check(os.path.exists("_build/" + repo + "/.nojekyll"), "the build is not marked as finished")
    E.observe([sorted(b["dest"][len(top):] for b in state.builds)])


def builder_module():
    import sys
    return sys.modules[build_all.__module__]
