#!/opt/venv/bin/python
"""Orchestrates one check: generates the cases of a property, feeds them to
isolated worker processes which run the code of /repo under the monitors, and
turns what they observed into a verdict.

  run.py C01 [--tier quick|thorough] [--seed N]
  run.py --replay evidence/replay/<file>

exit 0: held on everything observed; 1: violated (VIOLATION line); other: the
check itself could not decide.
"""
import argparse
import importlib
import json
import os
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV = os.environ.get("FBE_PYTHON", "/opt/venv/bin/python")
EVID = os.environ.get("FBE_EVIDENCE", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "known_findings.txt")

from vlib import plan  # noqa: E402


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(w.split("=", 1) for w in line[6:].split()[:2])
                if f.get("property") == prop:
                    out.append((f["key"], line[6:].split(None, 2)[2]))
    return out


class Worker:
    def __init__(self, prop, lane):
        env = dict(os.environ)
        env.update(
            OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
            PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUNBUFFERED="1",
        )
        env.update(lane.get("env", {}))
        cmd = lane.get("wrap", []) + [lane.get("python", VENV), "-m", "vlib.worker", prop]
        self.err = open(os.path.join(EVID, "log", f"{prop}.{lane['name']}.{os.getpid()}.{id(self)}.err"), "w+b")
        self.p = subprocess.Popen(
            cmd, cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=self.err, start_new_session=True,
        )
        self.lane = lane
        self.buf = b""
        self.case = None
        self.t0 = time.monotonic()
        self.ready = False

    def send(self, i, spec):
        self.case, self.t0 = i, time.monotonic()
        self.p.stdin.write((json.dumps(spec) + "\n").encode())
        self.p.stdin.flush()

    def read(self):
        """None: nothing complete yet; b'': end of file"""
        d = os.read(self.p.stdout.fileno(), 1 << 16)
        if not d:
            return b""
        self.buf += d
        if b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            return line
        return None

    def stderr_tail(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read()[-3000:].decode("utf8", "replace")

    def close(self, kill=False):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        if kill:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, 9)
            self.p.wait()
        name = self.err.name
        self.err.close()
        try:
            os.unlink(name)
        except OSError:
            pass


def run_cases(prop, lanes, cases, cap_s, case_timeout, nworkers, stop_after=5):
    """cases: list of specs (spec['lane'] names a lane). -> list of (spec, result), info"""
    os.makedirs(os.path.join(EVID, "log"), exist_ok=True)
    lane_of = {l["name"]: l for l in lanes}
    queues = {l["name"]: [] for l in lanes}
    for i, c in enumerate(cases):
        queues[c.get("lane", lanes[0]["name"])].append(i)
    results = {}
    info = {"crashes": 0, "timeouts": 0, "truncated": 0, "errors": []}
    active = [n for n in queues if queues[n]]
    total = sum(len(queues[n]) * lane_of[n].get("weight", 1.0) for n in active) or 1
    sel = selectors.DefaultSelector()
    workers = []

    def spawn(lane):
        w = Worker(prop, lane)
        os.set_blocking(w.p.stdout.fileno(), True)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        workers.append(w)

    for n in active:
        lane = lane_of[n]
        k = max(1, round(nworkers * len(queues[n]) * lane.get("weight", 1.0) / total))
        k = min(k, len(queues[n]), lane.get("max_workers", nworkers))
        for _ in range(k):
            spawn(lane)
    retry = {}
    t_start = time.monotonic()
    nviol = 0

    def drop(w, kill=False):
        sel.unregister(w.p.stdout)
        workers.remove(w)
        w.close(kill)

    def feed(w):
        q = queues[w.lane["name"]]
        over = time.monotonic() - t_start > cap_s or nviol >= stop_after
        if q and not over:
            i = q.pop(0)
            try:
                w.send(i, cases[i])
            except OSError:
                q.insert(0, i)
                w.case = None
        else:
            drop(w)

    while workers:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            line = w.read()
            if line is None:
                continue
            if line == b"":  # the process ended
                i = w.case
                w.p.wait()
                rc = w.p.returncode
                tail = w.stderr_tail()
                lane = w.lane
                drop(w)
                if i is None:
                    if not info.get("ended_early"):
                        info["errors"].append(f"worker ended (rc {rc}) outside a case: {tail}")
                    info["ended_early"] = True
                    continue
                info["crashes"] += 1
                retry[i] = retry.get(i, 0) + 1
                if rc in (-9, -15):
                    results[i] = {"verdict": "inconclusive", "msg": f"worker killed (rc {rc})"}
                elif retry[i] < 2:
                    queues[lane["name"]].insert(0, i)  # confirm in a fresh process
                else:
                    results[i] = {
                        "verdict": "violated", "key": "crash",
                        "msg": f"the process running the call died twice (rc {rc})",
                        "detail": {"stderr": tail[-1500:]},
                    }
                    nviol += 1
                if queues[lane["name"]] and nviol < stop_after:
                    spawn(lane)
                continue
            res = json.loads(line)
            if "init" in res:
                w.ready = True
                if res["init"] == "ok":
                    feed(w)
                else:
                    if res["init"] == "import_failed":
                        i = queues[w.lane["name"]][0] if queues[w.lane["name"]] else 0
                        results[i] = {"verdict": "violated", "key": "import",
                                      "msg": "importing the package failed: " + res["msg"],
                                      "detail": {"tb": res["tb"][-1500:]}}
                        nviol += 1
                    else:
                        info["errors"].append(res["msg"] + "\n" + res["tb"])
                    drop(w)
                continue
            results[w.case] = res
            if res["verdict"] == "violated":
                nviol += 1
            if res["verdict"] == "error":
                info["errors"].append(res["msg"] + "\n" + res.get("tb", ""))
            w.case = None
            feed(w)
        now = time.monotonic()
        for w in list(workers):
            limit = case_timeout if w.case is not None else 180
            if now - w.t0 > limit:
                if w.case is not None:
                    results[w.case] = {"verdict": "inconclusive", "msg": "watchdog"}
                info["timeouts"] += 1
                lane = w.lane
                drop(w, kill=True)
                if queues[lane["name"]] and info["timeouts"] < 16:
                    spawn(lane)
    info["truncated"] = sum(len(q) for q in queues.values())
    return [(cases[i], results[i]) for i in sorted(results)], info


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("FBE_WORKERS", "8")))
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--setup", action="store_true", help="build the native monitor and check the plans")
    a = ap.parse_args()
    if a.setup:
        from vlib import memory

        print("built", memory.build(os.path.join(EVID, "build")))
        for f in sorted(os.listdir(os.path.join(HERE, "vlib", "props"))):
            if f[0] == "c" and f.endswith(".py"):
                print(f[:-3].upper(), len(plan.cases(f[:-3].upper(), "quick", 1)), "cases")
        return 0
    t0 = time.monotonic()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)

    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.tier, a.seed = r["property"], r["tier"], r["seed"]
        cases = [r["spec"]]
    else:
        if a.tier not in ("quick", "thorough"):
            a.tier = "quick"
        cases = plan.cases(a.prop, a.tier, a.seed)
        if a.limit:
            cases = cases[: a.limit]
    meta = plan.meta(a.prop)
    lanes = meta["lanes"](HERE, a.tier)
    cap = meta["cap"][a.tier]
    timeout = meta["timeout"][a.tier]
    results, info = run_cases(a.prop, lanes, cases, cap, timeout, a.workers)

    known = known_findings(a.prop)
    counts, events, stats, sigs, lines = {}, {}, {}, set(), set()
    undecided = []
    viol, hits, inconcl, samples, lanes_seen = [], set(), 0, [], {}
    max_steps = 0
    slow = []
    for spec, res in results:
        lanes_seen[spec.get("lane", "main")] = lanes_seen.get(spec.get("lane", "main"), 0) + 1
        for k, v in res.get("counts", {}).items():
            counts[k] = counts.get(k, 0) + v
        for k, v in res.get("events", {}).items():
            events[k] = events.get(k, 0) + v
        for k, v in res.get("stats", {}).items():
            stats[k] = max(stats.get(k, -1e300), v)
        lines.update(res.get("lines", []))
        max_steps = max(max_steps, res.get("max_steps", 0))
        slow.append((res.get("dt", 0), spec))
        if res.get("sig"):
            if res["sig"] not in sigs and len(samples) < 4:
                samples.append({"spec": spec, "observed": res.get("counts", {})})
            sigs.add(res["sig"])
        if res["verdict"] == "violated":
            k = [d for key, d in known if key == res.get("key")]
            if k:
                hits.add((res["key"], k[0]))
            else:
                viol.append((spec, res))
        elif res["verdict"] == "inconclusive":
            inconcl += 1
            undecided.append({"spec": spec, "why": res.get("msg")})

    for key, what in known:
        # listed findings are announced whether or not this run met them
        print(f"KNOWN-FINDING: property={a.prop} key={key} {what}"
              + ("" if any(h[0] == key for h in hits) else " (not met by this run)"))
    replay = None
    for n, (spec, res) in enumerate(viol[:5]):
        path = os.path.join(EVID, "replay", f"{a.prop}-{a.tier}-{a.seed}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed, "spec": spec,
                       "message": res["msg"], "detail": res.get("detail")}, f, indent=1)
        replay = replay or os.path.relpath(path, HERE)
        print(f"  case {n}: {res['msg']} {json.dumps(res.get('detail', {}))[:600]}")
    wall = time.monotonic() - t0
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(sigs),
            "rule": meta["rule"], "samples": samples,
            "planned": len(cases), "truncated_by_time": info["truncated"],
            "inconclusive_cases": inconcl, "inconclusive_samples": undecided[:5], "worker_crashes": info["crashes"],
            "watchdog_timeouts": info["timeouts"],
            "api_calls_observed": dict(sorted(events.items())),
            "monitor_counts": dict(sorted(counts.items())), "monitor_maxima": stats,
            "max_logical_steps_in_one_call": max_steps,
            "lanes": lanes_seen,
            "package_lines_executed": len(lines),
            "package_lines_per_file": per_file(lines),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    if not a.replay:
        tmp = os.path.join(EVID, f".{a.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, f"{a.prop}.json"))
    print(f"{a.prop} {a.tier} seed={a.seed}: {len(results)}/{len(cases)} cases, {len(sigs)} distinct "
          f"non-trivial, {sum(events.values())} calls observed, {inconcl} inconclusive, "
          f"{len(lines)} package lines, {wall:.1f} s")
    if a.v:
        print(json.dumps(counts, indent=1), json.dumps(stats, indent=1))
        for dt, s in sorted(slow, key=lambda x: -x[0])[:5]:
            print(f"  {dt:.2f}s {s}")
    if viol:
        print(f"VIOLATION property={a.prop} replay={replay}")
        return 1
    if info["errors"]:
        print("ERROR: " + info["errors"][0][-1800:])
        return 3
    need = max(1, int(0.5 * len(cases))) if not a.replay else 0
    missing = [k for k in meta["must"] if counts.get(k, 0) == 0] if not a.replay and not a.limit else []
    if len(results) - inconcl < need or (len(sigs) == 0 and not a.replay) or missing:
        print(f"INCONCLUSIVE: {len(results) - inconcl} decided of {len(cases)} planned; monitors never reached: {missing}")
        return 4
    return 0


def per_file(lines):
    out = {}
    for l in lines:
        f = l.rsplit(":", 1)[0]
        out[f] = out.get(f, 0) + 1
    return dict(sorted(out.items()))


if __name__ == "__main__":
    sys.exit(main())
