"""Runs one of the command line tools."""
import os, resource, subprocess

from .core import Violation
from .driver import asan_summary

ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=86:handle_abort=1:detect_stack_use_after_return=0",
       "TZ": "UTC", "LC_ALL": "C.UTF-8"}


class Result:
    pass


def _limit():
    resource.setrlimit(resource.RLIMIT_CPU, (40, 41))


def run(cmd, cwd=None, stdin=None, env=None, ok_signals=(), path=None):
    """A death by signal or sanitizer report is a violation."""
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("G_") or k in ("LD_PRELOAD", "SOURCE_DATE_EPOCH"):
            del e[k]
    e.update(ENV)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, input=stdin if stdin is not None else b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=_limit)
    r = Result()
    r.rc, r.out, r.err = p.returncode, p.stdout, p.stderr
    err = r.err.decode("utf-8", "replace")
    if r.rc < 0 and -r.rc not in ok_signals or r.rc == 86 or r.rc > 128 and r.rc < 160:
        raise Violation("%s died (%d)\n%s" % (" ".join(map(str, cmd))[:500], r.rc, asan_summary(err)))
    return r
