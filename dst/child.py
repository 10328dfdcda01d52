"""A second interpreter with another hash seed, kept alive by a worker process;
requests and answers are pickled and both sides are deterministic."""
import base64
import importlib
import os
import pickle
import subprocess
import sys

_children = {}


def ask(hashseed, module, func, arg):
    from dst import boot, cli

    p = _children.get(hashseed)
    if p is None:
        p = subprocess.Popen([boot.PY, "-c",
                              f"import sys; sys.path.insert(0, {boot.VERIF!r}); from dst import child; child.main({os.environ['DST_SO']!r})"],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=cli.env(hashseed), cwd="/", text=True)
        _children[hashseed] = p
    p.stdin.write(base64.b64encode(pickle.dumps((module, func, arg))).decode() + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        from dst.boot import HarnessError
        from dst.sim import Violation

        code = p.wait()
        del _children[hashseed]
        if code < 0 and code != -9:
            raise Violation("another interpreter crashed", f"signal {-code} in {module}.{func}")
        raise HarnessError(f"child interpreter died (exit {code})")
    ok, val = pickle.loads(base64.b64decode(line))
    if not ok:
        from dst.sim import Violation

        kind, txt = val
        if kind == "repo":
            raise Violation("fails in another interpreter", txt)
        if kind == "form":
            raise Violation("result of unexpected form in another interpreter", txt)
        from dst.boot import HarnessError

        raise HarnessError("child interpreter: " + txt)
    return val


def stop():
    for p in _children.values():
        p.kill()


def main(so):
    from dst import boot, harness
    import traceback

    boot.load(so)
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    for line in sys.stdin:
        module, func, arg = pickle.loads(base64.b64decode(line))
        try:
            r = (True, getattr(importlib.import_module(module), func)(arg))
        except BaseException as e:  # noqa
            r = (False, ("repo" if harness.from_repo(e) else "harness" if harness.infrastructure(e) else "form", "".join(traceback.format_exception(e))[-1500:]))
        out.write(base64.b64encode(pickle.dumps(r)).decode() + "\n")
        out.flush()
