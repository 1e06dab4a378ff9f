"""What a document gives in a process that has converted nothing before.

A server process imports the code under test once and forks for every document; the caller keeps
one server per process.  Run as a script it is the server."""
import atexit
import json
import os
import subprocess
import sys

_server = None
_known = {}


def outcomes(docs):
    """The outcomes, as Outcome.key(), of the documents each converted alone."""
    global _server
    new = [d for d in dict.fromkeys(docs) if d not in _known]
    if new:
        if _server is None or _server.poll() is not None or _server.owner != os.getpid():
            from . import common

            env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
            _server = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), os.path.join(common.REPO, "src")],
                                       stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
            _server.owner = os.getpid()
            atexit.register(_server.kill)
        if len(_known) > 50000:
            _known.clear()
            new = list(dict.fromkeys(docs))
        _server.stdin.write(json.dumps(new).encode("ascii") + b"\n")
        _server.stdin.flush()
        line = _server.stdout.readline()
        if not line:
            raise RuntimeError("the server of fresh conversions ended")
        for d, k in zip(new, json.loads(line)):
            _known[d] = tuple(k)
    return [_known[d] for d in docs]


def serve():
    import resource

    sys.path.insert(0, sys.argv[1])
    from mathml_to_latex.converter import MathMLToLaTeX

    def alone(doc):
        try:
            return ["ok", MathMLToLaTeX.convert(doc)]
        except Exception as e:
            return ["error", type(e).__name__, str(e)]

    for line in sys.stdin.buffer:
        out = []
        for doc in json.loads(line):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
                    with os.fdopen(w, "wb") as f:
                        f.write(json.dumps(alone(doc)).encode("ascii"))
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                got = f.read()
            os.waitpid(pid, 0)
            out.append(json.loads(got) if got else ["ended"])
        sys.stdout.buffer.write(json.dumps(out).encode("ascii") + b"\n")
        sys.stdout.buffer.flush()


if __name__ == "__main__":
    serve()
