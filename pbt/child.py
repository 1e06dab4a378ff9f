"""Converts the documents given on standard input and prints the outcomes (used by C20)."""
import json
import sys

sys.path.insert(0, sys.argv[1])


def other_clock():
    """Every look at a clock is an hour and a bit after the last one, from the year 2100 on."""
    import datetime
    import time

    now = [4102444800.0]

    def tick(*_):
        now[0] += 3661.5
        return now[0]

    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, n, tick)
        setattr(time, n + "_ns", lambda: int(tick() * 10 ** 9))

    def at_the_tick(f):
        return lambda *a: f(*(a or (tick(),)))

    for n in ("localtime", "gmtime", "ctime"):
        setattr(time, n, at_the_tick(getattr(time, n)))
    strftime, asctime, localtime = time.strftime, time.asctime, time.localtime
    time.strftime = lambda f, *a: strftime(f, *(a or (localtime(),)))
    time.asctime = lambda *a: asctime(*(a or (localtime(),)))

    class DateTime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(tick(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(tick())

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(tick())

    datetime.datetime, datetime.date = DateTime, Date


MODE = sys.argv[2]
if MODE == "clock":
    other_clock()
from mathml_to_latex.converter import MathMLToLaTeX  # noqa: E402

docs = json.loads(sys.stdin.buffer.read().decode("ascii"))
order = list(range(len(docs)))
if MODE == "reversed":
    order.reverse()
elif MODE == "shuffled":
    order = [i * 7919 % len(docs) for i in range(len(docs))] + order
out = [None] * len(docs)


def run():
    for i in order:
        try:
            out[i] = ["ok", MathMLToLaTeX.convert(docs[i])]
        except Exception as e:
            out[i] = ["error", type(e).__name__, str(e)]


if MODE == "clock":
    other_clock()  # also what the import of other modules may have restored
if MODE == "threads":
    import threading

    end = threading.Event()
    threading.stack_size(512 * 1024)
    try:
        for k in range(60):
            threading.Thread(target=end.wait, daemon=True).start()
    except RuntimeError:  # the memory ceiling: so many then
        pass
    threading.stack_size(4 * 1024 * 1024)
    t = threading.Thread(target=run, name="worker-99")
    t.start()
    t.join()
    end.set()
elif MODE == "debugging":
    import gc
    import locale
    import logging
    import os
    import random
    import tempfile

    logging.basicConfig(level=1, stream=open(os.devnull, "w"))
    gc.set_threshold(1, 1, 1)
    random.seed(4)
    for name in ("C.UTF-8", "C"):
        try:
            locale.setlocale(locale.LC_ALL, name)
            break
        except locale.Error:
            pass
    sys.settrace(lambda frame, event, arg: None)
    os.chdir(tempfile.gettempdir())
    run()
elif MODE == "deep":
    def deep(n):
        return run() if n == 0 else deep(n - 1)

    deep(300)
else:
    run()
sys.settrace(None)
sys.stdout.buffer.write(json.dumps(out).encode("ascii"))
