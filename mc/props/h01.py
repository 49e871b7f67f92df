"""H01: the global error handler gives every exception to exactly the handlers registered for it."""
import importlib
import itertools
import logging
import sys

import importlib_metadata

CALLS = []


class Base(Exception):
    pass


class Mid(Base):
    pass


class Leaf(Mid):
    pass


class Other(Exception):
    pass


class Boom(RuntimeError):
    pass


CLASSES = {"Exception": Exception, "Base": Base, "Mid": Mid, "Leaf": Leaf, "Other": Other, "ValueError": ValueError}


def _handler(name, parent, mode, ErrorHandler):
    bases = (ErrorHandler,) if parent is None else (ErrorHandler, parent)

    def handle(self, error, *a, **k):
        CALLS.append((name, error))
        if mode == "raise":
            raise Boom(name)
        if mode == "true":
            return True

    def init(self, *a):
        if mode == "init":
            raise Boom(name)
    return type(name, bases, {"_handle": handle, "__init__": init})


KIND = {"E": Exception, "B": Base, "M": Mid, "L": Leaf, "O": Other, "N": None, "V": ValueError}
MODE = {"o": "ok", "r": "raise", "i": "init", "t": "true"}
NAMES = [k + m for k in KIND for m in MODE]
NotAClass = 5
BROKEN = {"X1": "mc.props.h01:Missing", "X2": "mc_no_such_module:Thing", "X3": "mc.props.h01:NotAClass", "X4": "mc.props._badmodule:Thing"}

EPS = ""


class Dist(importlib_metadata.Distribution):
    def read_text(self, filename):
        return {"entry_points.txt": EPS, "METADATA": "Metadata-Version: 2.1\nName: fake\nVersion: 1.0\n"}.get(filename)

    def locate_file(self, path):
        return path


importlib_metadata.MetadataPathFinder.find_distributions = classmethod(lambda cls, *a, **k: iter([Dist()]))


class Cap(logging.Handler):
    def emit(self, record):
        LOG.append(record)


LOG = []
ROOT = logging.getLogger()
logging.disable(logging.NOTSET)
ROOT.handlers[:] = [Cap()]
ROOT.setLevel(logging.DEBUG)


def CASES(tier):
    main = [k + "o" for k in KIND]
    raisers = list(CLASSES)
    for r in (0, 1, 2):
        for hs in itertools.permutations(NAMES, r):
            for x in raisers:
                yield ("one", hs, x)
    for hs in itertools.permutations(main + ["Er", "Br", "Mi"], 3):
        for x in raisers:
            yield ("one", hs, x)
    for b in BROKEN:
        for hs in [()] + [(n,) for n in NAMES]:
            for x in raisers:
                yield ("one", (b,) + hs, x)
                yield ("one", hs + (b,), x)
    body = [None, "Base", "Leaf", "Other", "Exception"]
    hist = 3 if tier == "quick" else 4
    for hs in [()] + [(n,) for n in NAMES] + list(itertools.permutations(["Bo", "Mo", "Lr", "No"], 2)):
        for w in itertools.product(body, repeat=hist):
            yield ("hist", hs, w)
        for a, b, c in itertools.product(body, repeat=3):
            yield ("nest", hs, a, b, c)
    if tier != "quick":
        for hs in itertools.permutations(NAMES[:16], 3):
            for x in raisers:
                yield ("one", hs, x)


def setup(hs):
    global EPS
    EPS = "[opentelemetry_error_handler]\n" + "".join(f"n{i} = {BROKEN[h] if h in BROKEN else 'mc.props.h01:H' + h}\n" for i, h in enumerate(hs))
    EPS += "[opentelemetry_other_group]\nz = mc.props.h01:HEo\n"
    CALLS.clear()
    LOG.clear()
    # a process of its own: nothing an earlier case made the handler remember
    sys.modules.pop("opentelemetry.sdk.error_handler", None)
    eh = importlib.import_module("opentelemetry.sdk.error_handler")
    for n in {*hs, "Eo"} - set(BROKEN):
        globals()["H" + n] = _handler(n, KIND[n[0]], MODE[n[1]], eh.ErrorHandler)
    return eh.GlobalErrorHandler


def verify(ctx, hs, err, what):
    """What one exception brought about."""
    apply = [h for h in hs if h not in BROKEN and KIND[h[0]] is not None and issubclass(KIND[h[0]], type(err))]
    want = sorted(h for h in apply if h[1] != "i")
    got = sorted(n for n, e in CALLS)
    ctx.check(got == want, "handlers", lambda: f"{what}: handled by {got}, expected {want}")
    ctx.check(all(e is err for _, e in CALLS), "error", lambda: f"{what}: handlers were given {CALLS}")
    handled = any(h[1] in "ot" for h in apply)
    logged = [r for r in LOG if r.exc_info and r.exc_info[1] is err and r.levelno >= logging.ERROR]
    ctx.check(len(logged) == (0 if handled else 1), "default", lambda: f"{what}: the default handler logged the exception {len(logged)} times although {'a' if handled else 'no'} registered handler handled it")
    failed = [r for r in LOG if r.exc_info and isinstance(r.exc_info[1], Boom)]
    bad = [h for h in apply if h[1] in "ri"]
    ctx.check(len(failed) == len(bad), "failures", lambda: f"{what}: {len(failed)} failures of handlers logged, expected those of {bad}")
    CALLS.clear()
    LOG.clear()


def use(ctx, g, name, what, inner=None):
    err = None if name is None else CLASSES[name](name)
    done = False
    try:
        with g():
            if inner:
                inner()
            if err is not None:
                raise err
            done = True
    except Exception as e:  # noqa
        ctx.check(False, "propagates", f"{what}: {e!r} left the handler")
    ctx.check(done == (err is None), "body", lambda: f"{what}: the block was cut short")
    ctx.step()
    return err


def nothing(ctx, what):
    ctx.check(not CALLS and not LOG, "idle", lambda: f"{what}: {CALLS} {[r.getMessage() for r in LOG]} without an exception")


def c_one(ctx, hs, x):
    g = setup(hs)
    ctx.state(hs, x)
    what = f"handlers {hs}, {x} raised"
    verify(ctx, hs, use(ctx, g, x, what), what)


def c_hist(ctx, hs, w):
    g = setup(hs)
    for i, x in enumerate(w):
        what = f"handlers {hs}, exceptions {w}, number {i}"
        err = use(ctx, g, x, what)
        ctx.check(sys.exc_info()[1] is None, "exc_info", lambda: f"{what}: an exception is still being handled")
        nothing(ctx, what) if err is None else verify(ctx, hs, err, what)


def c_nest(ctx, hs, a, b, c):
    """An inner block, an exception in the outer block after it, and one while an application's own exception is handled."""
    g = setup(hs)
    what = f"handlers {hs}, nested {a}, then {b}; {c} while handling another"

    def inner():
        e = use(ctx, g, a, what + " (inner)")
        nothing(ctx, what) if e is None else verify(ctx, hs, e, what + " (inner)")
    e = use(ctx, g, b, what, inner)
    nothing(ctx, what) if e is None else verify(ctx, hs, e, what)
    own = KeyError("own")
    try:
        raise own
    except KeyError:
        e = use(ctx, g, c, what)
        ctx.check(sys.exc_info()[1] is own, "own", lambda: f"{what}: the application's exception was replaced")
        nothing(ctx, what) if e is None else verify(ctx, hs, e, what)


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    CASE[case[0]](ctx, *case[1:])
