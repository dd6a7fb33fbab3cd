"""A second process in which a case can be run again under other circumstances.

The process has another hash seed, so sets of strings are gone through in
another order there.  It works in a folder of its own below the present one and
ends with the process that started it.
"""
import importlib
import json
import os
import subprocess
import sys

_SERVERS = {}


class Elsewhere(Exception):
    """The other process gave no answer."""


def call(module, function, case, hashseed="7"):
    """module.function(case) of the other process; a JSON-like value."""
    key = (os.getpid(), hashseed)
    p = _SERVERS.get(key)
    if p is None or p.poll() is not None:
        from harness.boot import PY, VERIF

        os.makedirs("elsewhere", exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONPATH=VERIF)
        p = _SERVERS[key] = subprocess.Popen([PY, "-c", "from harness.other import serve; serve()"], cwd="elsewhere", env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    try:
        p.stdin.write(json.dumps([module, function, case]) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BaseException:
        p.kill()
        p.wait()
        _SERVERS.pop(key, None)
        raise
    if not line:
        p.wait()
        _SERVERS.pop(key, None)
        raise Elsewhere("the other process ended")
    return json.loads(line)


def serve():
    from harness import boot

    boot.paths()
    answers = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        module, function, case = json.loads(line)
        got = getattr(importlib.import_module(module), function)(case)
        answers.write(json.dumps(got) + "\n")
        answers.flush()
