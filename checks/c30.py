"""C30 skill installer."""
import contextlib
import io

from checks import fsmodel as F
from engine.core import Inconclusive, PathAbort, CheckFailed, Unsupported
from engine.run import Scenario

BOUNDS = ("destination absent or a directory; each of the two skill entries absent, file, directory, link to a directory, link to a file or broken link, in every combination (symbolic kinds); "
          "force and editable symbolic; requested names: none, every list of up to 3 of the 7 names and aliases and unknown ones chosen symbolically, dev and all switches; "
          "library call and command line; install followed by a second install; status")
OUTSIDE = ("the file system is a model (kinds of entries, links, per-operation effects): partial failures, permissions, races, mount points and the contents of the trees; "
           "a destination that is itself a link or a file")
USER, DEV = "adctoolbox-user-guide", "adctoolbox-contributor-guide"
ALIAS = {"user": USER, "user-guide": USER, USER: USER, "dev": DEV, "contributor": DEV, "contributor-guide": DEV, DEV: DEV}
WORDS = ["user", "dev", "user-guide", "contributor", "contributor-guide", USER, DEV, "bogus", "../user", "USER", ""]
HARD = (Unsupported, Inconclusive, PathAbort, CheckFailed)


def world(s, fresh=True):
    fs = F.FS(s)
    fs.kind.update({"/": F.DIR, "/src": F.DIR, "/elsewhere": F.DIR, "/home/u": F.DIR, "/dest/other": F.DIR})
    have = s.bool("dest_exists")
    fs.kind["/dest"] = F.DIR if s.holds(have) else F.ABSENT
    kinds = {}
    for t, n in (("user", USER), ("dev", DEV)):
        fs.kind[f"/src/adctoolbox/_bundled_skills/skills/{n}"] = F.DIR
        p = "/dest/" + n
        if fs.kind["/dest"] == F.DIR:
            kinds[n] = fs.kind[p] = s.int("kind_" + t, 0, 5)
        else:
            kinds[n] = fs.kind[p] = F.ABSENT
            fs.kind["/dest/other"] = F.ABSENT
        fs.link[p] = "/elsewhere/" + t
    return fs, kinds


def attempt(fn):
    """None or the error of a call"""
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            return fn(), None
    except HARD:
        raise
    except (Exception, SystemExit) as e:
        return None, e


def judge(s, fs, kinds, req, force, editable, failed, known=True):
    """effects against what was asked; req: expected skills in order"""
    allowed = {"/dest"} | {"/dest/" + n for n in req}
    s.true(all(p in allowed for _, p in fs.ops), "only the destination and the named entries are touched", str(fs.ops))
    s.true(all(op == "create" for op, p in fs.ops if p == "/dest"), "the destination itself is only ever created", str(fs.ops))
    taken = [s.Not(kinds[n] == F.ABSENT) for n in req]
    for n, t in zip(req, taken):
        if any(p == "/dest/" + n for _, p in fs.ops):
            s.true(s.any(force, s.Not(t)), "an existing entry changes only under force", str(fs.ops))
    blocked = s.all(s.Not(force), s.any(False, *taken))
    if not known:
        s.true(failed, "unknown names are refused")
        return
    s.true(blocked if failed else s.Not(blocked), "an error is reported exactly when an entry is in the way", str(fs.ops))
    if failed:
        return
    for n in req:
        p = "/dest/" + n
        src = f"/src/adctoolbox/_bundled_skills/skills/{n}"
        k = fs.kind[p]
        s.true(isinstance(k, int), "the named entry is installed")
        linked = k == F.LINK_DIR and fs.link.get(p) == src
        copied = k == F.DIR and fs.copy.get(p) == src
        s.true(s.any(s.all(editable, linked), s.all(s.Not(editable), copied)), "installed as a copy, or as a link when editable")
        s.true(not any(op == "write into" for op, q in fs.ops if q == p), "an existing entry is replaced, not written into")


def expected(names, dev, alls):
    if alls:
        return [USER, DEV], True
    if dev:
        return [USER, DEV], True
    if not names:
        return [USER], True
    out = []
    for n in names:
        if n not in ALIAS:
            return [], False
        if ALIAS[n] not in out:
            out.append(ALIAS[n])
    return out, True


def pick(s, how):
    """a list of names chosen by symbolic indices"""
    if how is None or isinstance(how, list):
        return how
    idx = [s.int(f"name{i}", 0, len(WORDS) - 1 if how < 3 else 2) for i in range(how)]
    return [WORDS[s.conc(i)] for i in idx]


def install(s, names, dev=False, alls=False):
    fs, kinds = world(s)
    m, Path = F.load(fs)
    names = pick(s, names)
    force, editable = s.bool("force"), s.bool("editable")
    dest = Path("/dest") if s.holds(s.bool("as_path")) else "/dest"
    r, err = attempt(lambda: m.install_bundled_skills(names, install_dev=dev, install_all=alls, dest=dest, overwrite=force, editable=editable))
    req, known = expected(names, dev, alls)
    if err is not None and known:
        s.true(isinstance(err, FileExistsError), "reported as an existing entry", repr(err))
    if err is not None and not known:
        s.true(isinstance(err, ValueError), "unknown names are a value error", repr(err))
        s.true(not fs.ops, "nothing happens for unknown names")
    judge(s, fs, kinds, req, force, editable, err is not None, known)
    if err is None:
        s.true([str(p) for p in r] == ["/dest/" + n for n in req], "installed paths, each skill once")


def twice(s, names):
    """a second install meets what the first one left"""
    fs, kinds = world(s)
    m, Path = F.load(fs)
    f1, e1, f2, e2 = (s.bool(x) for x in ("force1", "edit1", "force2", "edit2"))
    go = lambda f, e: attempt(lambda: m.install_bundled_skills(names, dest="/dest", overwrite=f, editable=e))
    _, err = go(f1, e1)
    if err is not None:
        return
    fs.ops = []
    req, _ = expected(names, False, False)
    now = {n: fs.kind["/dest/" + n] for n in (USER, DEV)}
    for n in req:
        s.true(now[n] in (F.DIR, F.LINK_DIR), "installed")
    _, err = go(f2, e2)
    judge(s, fs, now, req, f2, e2, err is not None)


def cli(s, words, dest=True, flags=()):
    fs, kinds = world(s)
    m, Path = F.load(fs)
    words = pick(s, words)
    force, editable = s.holds(s.bool("force")), s.holds(s.bool("editable"))
    argv = [w for w in words] + list(flags)
    if dest:
        argv += ["--dest", "/dest"]
    if force:
        argv += ["--upgrade" if s.holds(s.bool("synonym")) else "--force"]
    if editable:
        argv += ["--editable"]
    r, err = attempt(lambda: m.main(argv))
    if not dest:
        s.true(isinstance(err, SystemExit) and err.code not in (0, None), "a destination is required")
        s.true(not fs.ops, "nothing happens without a destination")
        return
    s.true(err is None, "errors are reported, not raised", repr(err))
    req, known = expected(words, "--dev" in flags, "--all" in flags)
    judge(s, fs, kinds, req, force, editable, r != 0, known)


def looking(s, how):
    fs, kinds = world(s)
    m, Path = F.load(fs)
    if how == "list":
        r, err = attempt(lambda: m.main(["--list"]))
    elif how == "cli":
        r, err = attempt(lambda: m.main(["--status", "--all", "--dest", "/dest"] + (["--force"] if s.holds(s.bool("force")) else [])))
    else:
        r, err = attempt(lambda: m.skill_status(None, install_all=True, dest="/dest"))
    s.true(err is None, "looking never fails", repr(err))
    s.true(not fs.ops, "looking changes nothing", str(fs.ops))
    if how == "call":
        s.true([x["name"] for x in r] == [USER, DEV], "every skill listed once")


def names(s, n):
    """resolution of requested names"""
    fs, _ = world(s)
    m, _ = F.load(fs)
    w = pick(s, n)
    r, err = attempt(lambda: m.resolve_skill_names(w))
    req, known = expected(w, False, False)
    s.true((err is None) == known, "known names and aliases resolve, others are refused", f"{w} {r} {err!r}")
    if known:
        s.true(list(r) == req, "each skill once, in the order asked", f"{w} {r}")
    else:
        s.true(isinstance(err, ValueError), "refused as a value error")
    s.true(not fs.ops, "resolution changes nothing")


def scenarios():
    return [
        Scenario("install_default", install, names=None),
        Scenario("install_none", install, names=[]),
        Scenario("install_any_one", install, names=1),
        Scenario("install_any_two", install, names=2, max_paths=20000),
        Scenario("install_three", install, names=3, max_paths=20000),
        Scenario("install_dev", install, names=None, dev=True),
        Scenario("install_all", install, names=["user"], alls=True),
        Scenario("install_dev_named", install, names=["bogus"], dev=True),
        Scenario("twice_user", twice, names=["user"]),
        Scenario("twice_both", twice, names=["dev", "user"]),
        Scenario("cli_default", cli, words=[]),
        Scenario("cli_one", cli, words=1),
        Scenario("cli_both", cli, words=["dev", "user", "dev"]),
        Scenario("cli_dev", cli, words=[], flags=("--dev",)),
        Scenario("cli_all", cli, words=[], flags=("--all",)),
        Scenario("cli_no_dest", cli, words=["user"], dest=False),
        Scenario("look_list", looking, how="list"),
        Scenario("look_cli", looking, how="cli"),
        Scenario("look_call", looking, how="call"),
        Scenario("names_1", names, n=1),
        Scenario("names_2", names, n=2),
        Scenario("names_3", names, n=3),
    ]
