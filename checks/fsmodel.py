"""A file system whose entries have symbolic kinds, and modules (pathlib, os, shutil, filecmp,
importlib.resources) over it.  Nothing here touches the real file system: every operation that
would change something is recorded with the place it takes effect."""
import builtins
import os
import types

from engine import loader
from engine.core import Unsupported

ABSENT, FILE, DIR, LINK_DIR, LINK_FILE, BROKEN = range(6)


class FS:
    def __init__(self, s):
        self.s = s
        self.kind = {}        # path -> kind, an int or symbolic
        self.link = {}        # path -> target of a link
        self.copy = {}        # path -> source it was copied from
        self.ops = []         # (operation, place)

    def k(self, p):
        if p in self.kind:
            return self.kind[p]
        par = p.rpartition("/")[0]
        while par:
            if par in self.kind:
                k = self.kind[par]
                if not isinstance(k, int) or k in (LINK_DIR, LINK_FILE, BROKEN) or (k == DIR and par not in ("/dest", "/")):
                    raise Unsupported(f"contents of {par}")
                break
            par = par.rpartition("/")[0]
        return ABSENT

    def is_(self, p, *kinds):
        k = self.k(p)
        if isinstance(k, int):
            return k in kinds
        return self.s.any(*[k == v for v in kinds])

    def has(self, p, *kinds):
        return self.s.holds(self.is_(p, *kinds))

    # ---- queries
    def exists(self, p):
        return self.is_(p, FILE, DIR, LINK_DIR, LINK_FILE)

    def lexists(self, p):
        return self.s.Not(self.is_(p, ABSENT))

    def islink(self, p):
        return self.is_(p, LINK_DIR, LINK_FILE, BROKEN)

    def isfile(self, p):
        return self.is_(p, FILE, LINK_FILE)

    def isdir(self, p):
        return self.is_(p, DIR, LINK_DIR)

    def real(self, p):
        return self.link[p] if self.has(p, LINK_DIR, LINK_FILE, BROKEN) else p

    # ---- changes
    def note(self, op, p, kind=None):
        self.ops.append((op, p))
        if kind is not None:
            self.kind[p] = kind
            self.link.pop(p, None)
            self.copy.pop(p, None)

    def unlink(self, p, missing_ok=False):
        if self.has(p, ABSENT):
            if missing_ok:
                return
            raise FileNotFoundError(p)
        if self.has(p, DIR):
            raise IsADirectoryError(p)
        self.note("remove", p, ABSENT)

    def rmtree(self, p, ignore_errors=False, **k):
        try:
            if self.has(p, ABSENT):
                raise FileNotFoundError(p)
            if self.has(p, LINK_DIR, LINK_FILE, BROKEN):
                raise OSError("Cannot call rmtree on a symbolic link")
            if self.has(p, FILE):
                raise NotADirectoryError(p)
        except OSError:
            if ignore_errors:
                return
            raise
        self.note("remove", p, ABSENT)

    def rmdir(self, p):
        if self.has(p, ABSENT):
            raise FileNotFoundError(p)
        if not self.has(p, DIR):
            raise NotADirectoryError(p)
        raise OSError("Directory not empty")

    def mkdir(self, p, parents=False, exist_ok=False):
        if self.has(p, ABSENT):
            par = p.rpartition("/")[0]
            if par and not self.has(par, DIR, LINK_DIR):
                if not parents:
                    raise FileNotFoundError(par)
                self.mkdir(par, True, True)
            self.note("create", p, DIR)
        elif not (exist_ok and self.has(p, DIR, LINK_DIR)):
            raise FileExistsError(p)

    def symlink(self, target, p):
        if not self.has(p, ABSENT):
            raise FileExistsError(p)
        self.parent(p)
        self.note("create", p, LINK_DIR)
        self.link[p] = target

    def parent(self, p):
        par = p.rpartition("/")[0]
        if par and not self.has(par, DIR, LINK_DIR):
            raise FileNotFoundError(par)

    def copytree(self, src, dst, dirs_exist_ok=False):
        if not self.has(src, DIR, LINK_DIR):
            raise NotADirectoryError(src)
        if self.has(dst, ABSENT):
            self.mkdir(dst, True)
        elif self.has(dst, DIR) and dirs_exist_ok:
            self.note("write into", dst, DIR)
        elif self.has(dst, LINK_DIR) and dirs_exist_ok:
            self.ops.append(("write into", dst))
            self.ops.append(("write into", self.link[dst]))
            return dst
        else:
            raise FileExistsError(dst)
        self.copy[dst] = src
        return dst

    def write(self, p):
        if self.has(p, DIR, LINK_DIR):
            raise IsADirectoryError(p)
        if self.has(p, LINK_FILE, BROKEN):
            self.ops.append(("write into", self.link[p]))
            return
        self.note("write", p, FILE)

    def rename(self, a, b, replace=True):
        if self.has(a, ABSENT):
            raise FileNotFoundError(a)
        if not self.has(b, ABSENT):
            self.note("remove", b, ABSENT)
        k, l, c = self.kind.get(a), self.link.get(a), self.copy.get(a)
        self.note("remove", a, ABSENT)
        self.note("create", b, k)
        if l is not None:
            self.link[b] = l
        if c is not None:
            self.copy[b] = c


def modules(fs):
    class Path:
        def __new__(cls, *parts):
            self = object.__new__(cls)
            out = ""
            for p in parts:
                p = str(p)
                out = p if p.startswith("/") else (out.rstrip("/") + "/" + p if out else p)
            self._p = os.path.normpath(out) if out else "."
            return self

        def __truediv__(self, o):
            return Path(self._p, o)

        def joinpath(self, *o):
            return Path(self._p, *o)

        def __str__(self):
            return self._p

        __repr__ = __fspath__ = as_posix = __str__

        def __eq__(self, o):
            return isinstance(o, Path) and o._p == self._p

        def __hash__(self):
            return hash(self._p)

        def __lt__(self, o):
            return self._p < o._p

        name = property(lambda self: self._p.rpartition("/")[2])
        parent = property(lambda self: Path(self._p.rpartition("/")[0] or "/"))

        def with_name(self, n):
            return self.parent / n

        def expanduser(self):
            return Path("/home/u", self._p[2:]) if self._p.startswith("~") else self

        def absolute(self):
            return self

        def resolve(self, strict=False):
            return Path(fs.real(self._p))

        readlink = resolve

        def exists(self, **k):
            return fs.exists(self._p) if k.get("follow_symlinks", True) else fs.lexists(self._p)

        def is_symlink(self):
            return fs.islink(self._p)

        def is_file(self, **k):
            return fs.isfile(self._p)

        def is_dir(self, **k):
            return fs.isdir(self._p)

        def unlink(self, missing_ok=False):
            fs.unlink(self._p, missing_ok)

        def rmdir(self):
            fs.rmdir(self._p)

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            fs.mkdir(self._p, parents, exist_ok)

        def symlink_to(self, target, target_is_directory=False):
            fs.symlink(str(target), self._p)

        def rename(self, o):
            fs.rename(self._p, str(o))
            return Path(o)

        replace = rename

        def touch(self, **k):
            fs.write(self._p)

        def write_text(self, *a, **k):
            fs.write(self._p)

        write_bytes = write_text

        def relative_to(self, o):
            return Path(os.path.relpath(self._p, str(o)))

        def __getattr__(self, n):
            raise Unsupported(f"Path.{n}")

    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)

        def missing(n):
            if n.startswith("__"):
                raise AttributeError(n)
            raise Unsupported(f"{name}.{n}")
        m.__getattr__ = missing
        return m

    P = str
    path = mod("os.path", exists=lambda p: fs.exists(P(p)), lexists=lambda p: fs.lexists(P(p)), islink=lambda p: fs.islink(P(p)),
               isfile=lambda p: fs.isfile(P(p)), isdir=lambda p: fs.isdir(P(p)), realpath=lambda p: fs.real(P(p)),
               join=lambda *a: P(Path(*a)), basename=lambda p: os.path.basename(P(p)), dirname=lambda p: os.path.dirname(P(p)),
               expanduser=lambda p: P(Path(p).expanduser()), abspath=lambda p: P(p), normpath=lambda p: os.path.normpath(P(p)))
    osm = mod("os", path=path, unlink=lambda p, **k: fs.unlink(P(p)), remove=lambda p, **k: fs.unlink(P(p)), rmdir=lambda p: fs.rmdir(P(p)),
              mkdir=lambda p, *a, **k: fs.mkdir(P(p)), makedirs=lambda p, mode=0o777, exist_ok=False: fs.mkdir(P(p), True, exist_ok),
              symlink=lambda t, p, **k: fs.symlink(P(t), P(p)), readlink=lambda p: fs.real(P(p)), fspath=P, sep="/",
              rename=lambda a, b: fs.rename(P(a), P(b)), replace=lambda a, b: fs.rename(P(a), P(b)), environ={}, PathLike=Path)
    shutil = mod("shutil", rmtree=lambda p, ignore_errors=False, **k: fs.rmtree(P(p), ignore_errors),
                 copytree=lambda a, b, dirs_exist_ok=False, **k: Path(fs.copytree(P(a), P(b), dirs_exist_ok)),
                 move=lambda a, b, **k: fs.rename(P(a), P(b)))

    class dircmp:
        def __init__(self, a, b, *x, **k):
            self.left_only = self.right_only = self.funny_files = self.diff_files = []
            self.common_files = self.common_dirs = self.subdirs = []
    resources = mod("importlib.resources", files=lambda pkg: Path("/src", str(pkg).replace(".", "/")))
    return {"pathlib": mod("pathlib", Path=Path, PurePath=Path, PosixPath=Path), "os": osm, "os.path": path, "shutil": shutil,
            "filecmp": mod("filecmp", dircmp=dircmp, cmp=lambda *a, **k: True), "importlib": mod("importlib", resources=resources),
            "importlib.resources": resources}


def load(fs, name="adctoolbox.skill_cli", mods=None):
    """the module executed from its current source over the model"""
    over = modules(fs)
    loaded = {}

    def imp(n, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"].split(".")
            base = base[:len(base) - level + 1]
            n = ".".join(base + ([n] if n else []))
        if n.partition(".")[0] == "adctoolbox":
            f = os.path.join(loader.SRC, *n.split("."))
            if os.path.isdir(f):
                m = types.ModuleType(n)
                for x in fromlist or ():
                    if os.path.isfile(os.path.join(f, x + ".py")):
                        setattr(m, x, run(n + "." + x))
                return m
            return run(n)
        if n in over:
            return over[n] if fromlist or "." not in n else over[n.partition(".")[0]]
        return builtins.__import__(n, globals, locals, fromlist, 0)

    b = dict(builtins.__dict__)
    b.update({"__import__": imp, "print": lambda *a, **k: None})

    def opened(p, mode="r", *a, **k):
        raise Unsupported("open")
    b["open"] = opened

    def run(n):
        if n in loaded:
            return loaded[n]
        path = os.path.join(loader.SRC, *n.split(".")) + ".py"
        m = types.ModuleType(n)
        m.__dict__.update(__builtins__=b, __file__=path, __package__=n.rpartition(".")[0])
        loaded[n] = m
        with open(path, encoding="utf-8") as fh:
            exec(compile(fh.read(), path, "exec", dont_inherit=True), m.__dict__)
        return m
    return run(name), over["pathlib"].Path
