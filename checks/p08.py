"""P08: shadow model of the result container, compared after every operation (under ASan/UBSan)."""
import json
import subprocess
import concurrent.futures as cf

import build


def run(ctx):
    exe = build.build("hobj", ["hobj.cpp"], build.pick("/HierarchyObject.cpp"), variant="asan")
    ctx.log("built")
    r = ctx.rng("seeds")
    jobs = [(ctx.n(15000, 400000), r.randrange(1 << 60)) for _ in range(8)]

    def one(j):
        return subprocess.run([exe, str(j[0]), str(j[1])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")

    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for j, p in zip(jobs, res):
        rq = f"{exe} {j[0]} {j[1]}"
        last = p.stdout.strip().splitlines()[-1:] or [""]
        try:
            d = json.loads(last[0])
        except ValueError:
            d = {}
        if p.returncode == 5 or "violation" in d:
            ctx.violate("container: " + d.get("violation", "?")[:60], d.get("violation", last[0]) + " after operations (code:object:index)" + d.get("history", ""), rq)
        elif p.returncode != 0:
            ctx.violate("container: abnormal end", f"exit {p.returncode}: {p.stderr[-1500:]}", rq)
        else:
            ctx.ev(d["comparisons"])
            for k, v in d.items():
                ctx.count(k, v)
                if k.startswith("op "):
                    ctx.seen("operation", k)
    ctx.sample(f"{len(jobs)} sequences of {jobs[0][0]} operations on pools of 2 to 7 objects")
    return ctx.finish("monitored at run time", "distinct = operation kinds with valid and invalid indices", 100000)
