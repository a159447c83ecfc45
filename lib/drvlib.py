"""Runs requests through recorder processes (sharded) and collects the events."""
import concurrent.futures as cf
import json
import os
import subprocess

JOBS = os.cpu_count() or 4


class HarnessError(Exception):
    """the machinery failed (neither a pass nor a violation)"""


class Crash(Exception):
    def __init__(self, request, rc, err, sofar):
        super().__init__(f"rc={rc}")
        self.request, self.rc, self.err, self.sofar = request, rc, err, sofar


def run_shard(exe, reqs, timeout=600, env=None):
    """returns list of events; a request that kills the process yields {'crash': ...}"""
    out = []
    i = 0
    while i < len(reqs):
        chunk = reqs[i:]
        try:
            r = subprocess.run([exe], input="\n".join(chunk) + "\n", text=True, errors="replace",
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               env={**os.environ, **(env or {})})
            lines, rc, err, hung = r.stdout.splitlines(), r.returncode, r.stderr, False
        except subprocess.TimeoutExpired as e:
            so = e.stdout or b""
            so = so.decode(errors="replace") if isinstance(so, bytes) else so
            lines, rc, err, hung = so.splitlines(), None, "", True
        if rc == 97:
            raise HarnessError("harness rejected a request: " + err[-500:])
        if not hung and rc == 0 and len(lines) != len(chunk):
            raise HarnessError(f"{len(lines)} events for {len(chunk)} requests")
        good = []
        for ln in lines:
            try:
                good.append(json.loads(ln))
            except ValueError:
                break
        out += good
        i += len(good)
        if i < len(reqs):
            if hung:
                # inconclusive unless it repeats on its own
                try:
                    subprocess.run([exe], input=reqs[i] + "\n", text=True, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=60, env={**os.environ, **(env or {})})
                except subprocess.TimeoutExpired:
                    out.append({"crash": "hang", "stderr": ""})
                    i += 1
                continue
            if rc == 0:
                raise HarnessError("bad event: " + lines[len(good)][:300])
            out.append({"crash": rc, "stderr": err[-3000:]})
            i += 1
    return out


def run(exe, reqs, jobs=None, timeout=600, env=None):
    jobs = jobs or JOBS
    n = len(reqs)
    if n == 0:
        return []
    jobs = min(jobs, n)
    shards = [list(range(k, n, jobs)) for k in range(jobs)]
    res = [None] * n
    with cf.ThreadPoolExecutor(jobs) as ex:
        for idx, ev in zip(shards, ex.map(lambda s: run_shard(exe, [reqs[i] for i in s], timeout, env), shards)):
            for i, e in zip(idx, ev):
                res[i] = e
    return res
