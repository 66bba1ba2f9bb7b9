"""
Facets: the executable form of the properties.

A property is decided by one or more facets. A facet is a Hypothesis strategy
that produces a JSON-able case, and a function that runs the code under test on
that case and compares the outcome with an oracle. Everything a facet does is a
function of the case, so that a case saved to a file replays by itself.
"""
import contextlib, hashlib, json, os, shutil, tempfile, traceback

import numpy as np

FACETS = {}   # property id -> list of Facet


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The check itself failed. Never reported as a violation."""


class Facet(object):
    def __init__(self, pid, name, strategy, quick, thorough, rule, func):
        self.pid, self.name = pid, name
        self.strategy, self.quick, self.thorough = strategy, quick, thorough
        self.rule, self.func = rule, func

    @property
    def key(self):
        return '%s-%s' % (self.pid, self.name)


def facet(pid, name, strategy, quick, rule, thorough=None):
    """
    Register the decorated function f(case, ctx) as a facet of property pid.
    quick, thorough - number of cases to generate in each tier.
    rule - how cases are made, and what makes one non-trivial.
    """
    def register(func):
        FACETS.setdefault(pid, []).append(Facet(pid, name, strategy, quick,
            thorough or 12 * quick, rule, func))
        return func
    return register


class Ctx(object):
    """What a facet's function can use besides the case."""
    def __init__(self):
        self.classes = {}
        self.is_nontrivial = False
        self.known_seen = []
        self.touched = False
        self._tmp = None

    def note(self, *classes):
        for c in classes:
            self.classes[c] = 1

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    @property
    def tmp(self):
        """A scratch directory, removed after the case."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='case-')
        return self._tmp

    def path(self, *names):
        return os.path.join(self.tmp, *names)

    def known(self, finding, what):
        """A recorded finding (see KNOWN_FINDINGS.txt) shows in this case."""
        self.known_seen.append((finding, what))

    @contextlib.contextmanager
    def sut(self, what):
        """Code under test: it must not fail on cases of the domain."""
        self.touched = True
        try:
            yield
        except Violation:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            raise Violation('%s failed: %s: %s\n%s' % (what, type(e).__name__,
                e, traceback.format_exc(limit=-6)))

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


# ---- names of files ----
def at(ctx, where, name):
    """The path to give for a file in the scratch directory."""
    if where == 'rel':
        os.chdir(ctx.tmp)
        return name
    if where == 'home':
        os.environ['HOME'] = ctx.tmp
        return '~/' + name
    return ctx.path(name)


class kept_env(object):
    """Restores the working directory and home."""
    def __enter__(self):
        self.cwd, self.home = os.getcwd(), os.environ.get('HOME')

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        os.environ['HOME'] = self.home


def case_json(case):
    return json.dumps(case, sort_keys=True)


def case_hash(text):
    return hashlib.blake2b(text.encode(), digest_size=8).digest()


# ---- comparisons: a mismatch in kind, shape or value is a Violation ----
def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def check(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def short(x, limit=600):
    s = str(x)
    return s if len(s) <= limit else s[:limit] + '...'


def same(got, want, what, rtol=1e-9, atol=0.):
    """Arrays of the same shape, and of the same values within tolerance."""
    try:
        g = np.asarray(got)
        if g.dtype == object:
            fail('%s: not a regular array: %s', what, short(got))
    except ValueError:
        fail('%s: not a regular array: %s', what, short(got))
    w = np.asarray(want)
    if g.shape != w.shape:
        fail('%s: shape %s, should be %s\n got %s\n want %s', what, g.shape,
            w.shape, short(g), short(w))
    if g.size == 0:
        return
    if rtol == 0. and atol == 0.:
        ok = (g == w)
    else:
        try:
            ok = np.isclose(g.astype(float), w.astype(float), rtol=rtol,
                atol=atol, equal_nan=True)
        except (TypeError, ValueError):
            fail('%s: not numeric: %s', what, short(got))
    if not np.all(ok):
        fail('%s: values differ\n got %s\n want %s', what, short(g), short(w))


def exact(got, want, what):
    same(got, want, what, 0., 0.)


def equal(got, want, what):
    """Plain Python values."""
    try:
        ok = bool(got == want)
    except Exception:
        ok = False
    if not ok:
        fail('%s: got %s, should be %s', what, short(got), short(want))
