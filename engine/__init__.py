"""The verifier.  Importing this from a check run as a program puts the check under a supervisor.

The supervisor forks one worker per shard of the cases (before TensorFlow starts its threads), and merges what they
report.  The real code may abort a worker (a failed CHECK in a native kernel) or never return; the supervisor turns that
into a verdict for the case being run."""
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time

MARK = None       # file naming the case being run on the real code
RESULT = None     # file the worker leaves its results in
SHARD = (0, 1)
CASE_LIMIT = float(os.environ.get("VERIF_CASE_LIMIT", "240"))
SHARDS = int(os.environ.get("VERIF_SHARDS", "1" if os.environ.get("VERIF_CASE") else "7"))


def _supervise(prop):
    global MARK, RESULT, SHARD
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_")
    sys.stdout.flush()
    pids = {}
    for i in range(SHARDS):
        mark, result = os.path.join(scratch, "case%d" % i), os.path.join(scratch, "result%d" % i)
        pid = os.fork()
        if pid == 0:
            MARK, RESULT, SHARD = mark, result, (i, SHARDS)
            return
        pids[pid] = (mark, result)
    crashes, killed, hung = [], False, {}
    alive = dict(pids)
    while alive:
        time.sleep(0.05)
        for pid, (mark, _) in list(alive.items()):
            done, ws = os.waitpid(pid, os.WNOHANG)
            if done:
                del alive[pid]
                case = open(mark).read() if os.path.exists(mark) else ""
                if os.WIFSIGNALED(ws):
                    if pid in hung:
                        crashes.append((hung[pid], "does not return within %d s" % CASE_LIMIT))
                    elif os.WTERMSIG(ws) != 9 and case:
                        crashes.append((case, "aborts the process (signal %d)" % os.WTERMSIG(ws)))
                    else:
                        killed = True
                continue
            try:
                st = os.stat(mark)
                if st.st_size and time.time() - st.st_mtime > CASE_LIMIT:
                    hung[pid] = open(mark).read()
                    os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    parts = []
    for _, result in pids.values():
        if os.path.exists(result):
            with open(result, "rb") as f:
                parts.append(pickle.load(f))
    shutil.rmtree(scratch, ignore_errors=True)
    from . import report
    missing = len(pids) - len(parts) - len(crashes)
    st = report.report(prop, parts, crashes, t0)
    if st == 0 and missing:
        print("ERROR: %d of %d workers ended without a result%s" % (missing, len(pids), " (killed)" if killed else ""))
        st = 2
    sys.stdout.flush()
    os._exit(st)


_m = sys.modules.get("__main__")
if getattr(_m, "__spec__", None) is not None and _m.__spec__.name.startswith("checks.C"):
    _supervise(_m.__spec__.name.split(".")[-1])
