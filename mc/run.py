"""python -m mc.run <property> [--tier quick|thorough] [--replay file]

Exit 0: property held on everything explored.  Exit 1 + VIOLATION line otherwise.
"""
import argparse
import json
import os
import queue
import re
import select
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
TASK_LIMIT = {"quick": 420.0, "thorough": 3000.0}


def list_groups(prop, tier):
    """names, modes and costs of the groups, read without importing jax"""
    src = open(os.path.join(ROOT, "mc", "props", prop.lower() + ".py")).read()
    out = []
    for m in re.finditer(r"^@group\((.*?)\)\ndef (\w+)\(", src, re.M | re.S):
        opt = eval(f"dict({m.group(1)})")
        if tier in opt.get("tiers", ("quick", "thorough")):
            modes = opt.get("modes", ("f32", "f64"))
            for mode in (opt.get("quick") or modes) if tier == "quick" else modes:
                out.append((opt.get("cost", 1), mode, m.group(2)))
    return sorted(out, reverse=True)


def spawn(prop, mode, tier, seed):
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env.update(
        PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_REPO=REPO, TF_CPP_MIN_LOG_LEVEL="3",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    )
    return subprocess.Popen(
        [PY, "-m", "mc.worker", prop, mode, tier, str(seed)], cwd=ROOT, env=env, text=True,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE if not os.environ.get("MC_STDERR") else None,
    )


class Worker:
    def __init__(self, prop, mode, tier, seed):
        self.args = (prop, mode, tier, seed)
        self.p = spawn(*self.args)
        if self.p.stderr:
            threading.Thread(target=self._drain, args=(self.p.stderr,), daemon=True).start()
        self.tail = ""
        r = self._read(300)
        if not r or not r.get("ready"):
            raise RuntimeError((r or {}).get("error") or f"worker did not start\n{self.tail}")

    def _drain(self, f):
        for line in f:
            self.tail = (self.tail + line)[-3000:]

    def _read(self, limit):
        box = []
        t = threading.Thread(target=lambda: box.append(self.p.stdout.readline()), daemon=True)
        t.start()
        t.join(limit)
        if not box or not box[0]:
            return None
        return json.loads(box[0])

    def run(self, name, limit):
        self.p.stdin.write(json.dumps(dict(group=name)) + "\n")
        self.p.stdin.flush()
        return self._read(limit)

    def kill(self):
        self.p.kill()
        self.p.wait()


def run_tasks(prop, tier, seed, tasks, nproc):
    results, lock = [], threading.Lock()
    todo = {m: queue.Queue() for m in ("f32", "f64")}
    cost = {m: 0.0 for m in todo}
    for c, mode, name in tasks:
        todo[mode].put(name)
        cost[mode] += c
    total = sum(cost.values()) or 1
    plan = []
    for m in todo:
        if todo[m].qsize():
            plan += [m] * max(1, min(todo[m].qsize(), round(nproc * cost[m] / total)))

    def loop(mode):
        w = None
        while True:
            try:
                name = todo[mode].get_nowait()
            except queue.Empty:
                break
            t = time.time()
            try:
                w = w or Worker(prop, mode, tier, seed)
            except Exception as e:  # the code under test cannot even be imported
                with lock:
                    results.append(broken(name, mode, f"cannot load the code under test: {e}"))
                w = None
                continue
            r = w.run(name, TASK_LIMIT[tier])
            if r is None:
                dead = w.p.poll() is not None
                w.kill()
                msg = f"process died: {w.tail[-800:]}" if dead else f"no result after {time.time()-t:.0f} s (does not terminate)"
                r = broken(name, mode, msg)
                w = None
            with lock:
                results.append(r)
        if w:
            w.kill()

    ts = [threading.Thread(target=loop, args=(m,)) for m in plan]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return results


def broken(name, mode, msg):
    return dict(group=name, mode=mode, evaluations=0, states=0, transitions=0, traces=0, outcomes=0,
                samples=[], failures=[dict(case=f"{name} (whole group)", detail=msg)], nfail=1, wall_s=0)


def open_findings(prop):
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for line in open(path):
        m = re.match(r"open: property=(\S+) case=\[(.*?)\] (.*)", line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--mode")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tasks = list_groups(prop, a.tier)
    if a.replay:
        r = json.load(open(a.replay))
        a.tier = r.get("tier", a.tier)
        tasks = [(1, r["mode"], r["group"])]
    if a.only:
        tasks = [t for t in tasks if t[2] in a.only.split(",")]
    if a.mode:
        tasks = [t for t in tasks if t[1] == a.mode]
    if not tasks:
        print("no groups selected", file=sys.stderr)
        sys.exit(2)
    results = run_tasks(prop, a.tier, seed, tasks, min(8, os.cpu_count() or 1))
    results.sort(key=lambda r: (r["group"], r["mode"]))
    known = open_findings(prop)
    viol = []
    seen_known = {}
    for r in results:
        n_known = 0
        for f in r["failures"]:
            key = f"{r['group']}: {f['case']}"
            if key in known:
                seen_known[key] = known[key]
                n_known += 1
            else:
                viol.append((r, f))
        if r["nfail"] > len(r["failures"]) and n_known == len(r["failures"]) and r["nfail"] > n_known:
            viol.append((r, dict(case="unlisted failures", detail=f"{r['nfail'] - n_known} more")))
    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} [{k}] {v}")
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(r["states"] for r in results),
            transitions=sum(r["transitions"] for r in results),
            traces_validated_against_impl=sum(r["traces"] for r in results),
            oracle_evaluations=sum(r["evaluations"] for r in results),
            distinct_outcomes=sum(r["outcomes"] for r in results),
            samples=[s for r in results for s in r["samples"]][:12],
            groups=[{k: r[k] for k in ("group", "mode", "states", "transitions", "traces", "evaluations", "outcomes", "wall_s")} for r in results],
            exhaustive=True,
            rule="every element of each group's finite space (bounds in DESIGN.md) is executed on the real code; "
                 "state = (program or history, input point), transition = one operation applied by the real code, "
                 "trace = one complete program/history whose observation was compared with the reference model",
        ),
        assumptions=["bounds and alphabets listed in DESIGN.md", "jax/jaxlib/flax/jaxopt and numpy are trusted", "CPU backend"],
        wall_s=round(time.time() - t0, 2), violations=len(viol),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not (a.replay or a.only or a.mode):
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print(f"{prop} {a.tier}: states={c['states']} transitions={c['transitions']} traces={c['traces_validated_against_impl']} "
          f"evaluations={c['oracle_evaluations']} outcomes={c['distinct_outcomes']} wall={ev['wall_s']}s")
    if a.v:
        for r in results:
            print(f"   {r['group']:32s} {r['mode']} states={r['states']} trans={r['transitions']} traces={r['traces']} eval={r['evaluations']} out={r['outcomes']} {r['wall_s']}s fail={r['nfail']}")
    if viol:
        for i, (r, f) in enumerate(viol[:6]):
            path = os.path.join(ROOT, "evidence", f"{prop}.replay{i}.json")
            with open(path, "w") as h:
                json.dump(dict(property=prop, tier=a.tier, group=r["group"], mode=r["mode"], case=f["case"], detail=f["detail"],
                               replay_cmd=f"cd {ROOT} && {PY} -m mc.run {prop} --replay {path}"), h, indent=1)
            print(f"  {r['group']}/{r['mode']}: {f['case']}\n      {f['detail'][:700]}")
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)


main()
