"""Target access, violation reporting, generator sources and small helpers."""
import os
import resource
import signal
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_convert = None


class Violation(Exception):
    """The property does not hold for the case being checked."""


class Hang(BaseException):
    """A conversion used up its CPU allowance (not an Exception: the target must not catch it)."""


class Outcome:
    """What one conversion did: .ok with .value, or .exc (class name), .mro, .message."""

    __slots__ = ("ok", "value", "exc", "mro", "message")

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value = ok, value
        self.exc = type(exc).__name__ if exc is not None else None
        self.mro = [c.__name__ for c in type(exc).__mro__] if exc is not None else []
        self.message = str(exc) if exc is not None else ""

    def key(self):
        return ("ok", self.value) if self.ok else ("error", self.exc, self.message)

    def __repr__(self):
        return repr(self.value) if self.ok else "%s(%s)" % (self.exc, self.message[:200])


def load_target():
    global _convert
    if _convert is None:
        sys.dont_write_bytecode = True
        src = os.path.join(REPO, "src")
        if src not in sys.path:
            sys.path.insert(0, src)
        import mathml_to_latex.converter as c

        if not os.path.realpath(c.__file__).startswith(os.path.realpath(src)):
            raise RuntimeError("imported the wrong package: " + c.__file__)
        _convert = c.MathMLToLaTeX.convert
    return _convert


CPU_LIMIT = 20  # CPU seconds for one conversion that normally takes a millisecond


def _on_cpu(_sig, _frame):
    raise Hang("one conversion used more than %d CPU seconds" % CPU_LIMIT)


def arm():
    """Install the per-conversion CPU watchdog and a memory ceiling in this process."""
    signal.signal(signal.SIGVTALRM, _on_cpu)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def call(xml, fn=None):
    """Convert `xml` with the code under test."""
    fn = fn or load_target()
    main = _is_main()
    if main:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        return Outcome(True, fn(xml))
    except Hang as e:
        raise Violation("does not terminate: %s" % e)
    except Exception as e:  # judged by the caller
        return Outcome(False, exc=e)
    finally:
        if main:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _is_main():
    import threading

    return threading.current_thread() is threading.main_thread()


# ---------------------------------------------------------------- generator sources

class Src:
    """Source of choices; generators are written against below()."""

    def below(self, n):
        raise NotImplementedError

    def between(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, num, den=100):
        """True with probability about num/den; False is the simple choice."""
        return self.below(den) >= den - num

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value); the first is the simple choice."""
        total = sum(w for w, _ in pairs)
        k = self.below(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class HypSrc(Src):
    """Draws from Hypothesis (straight from its choice sequence, which st.data() would reach at
    five times the cost per draw)."""

    def __init__(self, data):
        self._draw = data.conjecture_data.draw_integer

    def below(self, n):
        return self._draw(0, n - 1) if n > 1 else 0

