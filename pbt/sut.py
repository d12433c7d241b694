"""Access to the code under test: /repo's working tree, through its public interface."""
import contextlib
import os
import shutil
import sys
import tempfile
import traceback
import warnings

REPO = os.environ.get("PYFLP_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import pyflp  # noqa: E402

if not os.path.abspath(pyflp.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("pyflp was imported from %s, not from %s" % (pyflp.__file__, REPO))

from pyflp import exceptions as exc  # noqa: E402


class Violation(Exception):
    pass


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        _tmp = tempfile.mkdtemp(prefix="pyflp-pbt-", dir=base)
    return _tmp


def cleanup():
    if _tmp is not None:
        shutil.rmtree(_tmp, ignore_errors=True)


@contextlib.contextmanager
def ok(what):
    """The enclosed calls into pyflp must succeed."""
    try:
        yield
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s: unexpected %s: %s\n%s" % (
            what, type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:]))) from e


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def write(raw, name="in.flp"):
    path = os.path.join(scratch(), name)
    with open(path, "wb") as f:
        f.write(raw)
    return path


def read(path):
    with open(path, "rb") as f:
        return f.read()


def parse(raw, name="in.flp"):
    return pyflp.parse(write(raw, name))


def load(raw, name="in.flp"):
    with ok("parse"):
        return parse(raw, name)


def saved(project, name="out.flp"):
    path = os.path.join(scratch(), name)
    with contextlib.suppress(FileNotFoundError):
        os.remove(path)
    with ok("save"):
        pyflp.save(project, path)
    return read(path)


def diff(a, b):
    """Where two byte strings differ, for messages."""
    if a == b:
        return "equal"
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "lengths %d/%d, first difference at %d: got %s want %s" % (
        len(a), len(b), n, a[n:n + 16].hex(), b[n:n + 16].hex())


class Finder:
    """Resolves attribute paths on one project, each step taken once."""

    def __init__(self, project):
        self.memo = {(): project}
        self.lists = {}

    def __call__(self, path):
        path = tuple(path)
        if path in self.memo:
            return self.memo[path]
        parent, step = path[:-1], path[-1]
        if isinstance(step, int):
            if parent not in self.lists:
                self.lists[parent] = list(self(parent))
            obj = self.lists[parent][step]
        elif isinstance(step, tuple):
            obj = self(parent)[step[1]]
        else:
            obj = getattr(self(parent), step)
        self.memo[path] = obj
        return obj


MISSING = object()


def get(find, field):
    """Read a field; MISSING when reading raised AttributeError and that is allowed."""
    from .doc import show
    with ok("finding %s" % show(field.path)):
        owner = find(field.path)
    if field.raises:
        try:
            return getattr(owner, field.attr)
        except AttributeError:
            return MISSING
        except Exception as e:
            raise Violation("reading %s: unexpected %r" % (field.label, e))
    with ok("reading %s" % field.label):
        return getattr(owner, field.attr)


def check_read(find, field, when=""):
    got = get(find, field)
    if field.place.present():
        b = field.place.get()
        try:
            good = got is not None and got is not MISSING and field.codec.same(got, b)
        except Exception as e:
            raise Violation("%s%s reads as %r (%s), stored bytes %s mean %r"
                            % (when, field.label, got, e, b.hex(), field.expect()))
        require(good, "%s%s reads as %r, but the stored bytes %s mean %r", when, field.label, got,
                b.hex(), field.expect())
    elif field.raises:
        require(got is MISSING or got is None, "%s%s reads as %r although it isn't stored", when,
                field.label, got)
    elif field.default is None:
        require(got is None, "%s%s reads as %r although it isn't stored (want None)", when,
                field.label, got)
    else:
        require(got == field.default, "%s%s reads as %r although it isn't stored (want %r)", when,
                field.label, got, field.default)
    return got


def check_all(project, fields, when=""):
    find = Finder(project)
    for f in fields:
        check_read(find, f, when)
    return find


def refused(what, exc_types, func):
    try:
        func()
    except exc_types:
        return
    except Exception as e:
        raise Violation("%s raised %r instead of %s" % (what, e, exc_types))
    raise Violation("%s was accepted" % what)
