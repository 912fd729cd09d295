#!/usr/bin/env python3
"""check.py PROPERTY            run the check (VERIF_SEED, VERIF_TIER)
   check.py PROPERTY --replay F  rebuild from /repo's working tree and replay one recorded execution"""
import json, os, re, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from checks import CHECKS

NW = max(1, min(8, os.cpu_count() or 1))

def err(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def symbolize(exe, text):
    pcs = sorted(set(re.findall(r"@([0-9a-f]{4,12})", text)))
    if not pcs:
        return text
    try:
        # return addresses: look up the call itself
        out = subprocess.run(["addr2line", "-f", "-C", "-s", "-e", exe] + [hex(int(p, 16) - 1) for p in pcs], capture_output=True, text=True, timeout=120).stdout.split("\n")
    except Exception:
        return text
    m = {}
    for i, p in enumerate(pcs):
        if 2 * i + 1 < len(out):
            fn = re.sub(r"\(.*", "", out[2 * i])
            m[p] = f"{fn[:120]} ({out[2*i+1].split(' ')[0]})"
    return re.sub(r"@([0-9a-f]{4,12})", lambda k: "{" + m.get(k.group(1), k.group(0)) + "}", text)

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", l.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out

def run_replay(exe, path, timeout=60):
    try:
        r = subprocess.run([exe, "replay", path], capture_output=True, text=True, timeout=timeout)
        return json.loads(r.stdout)
    except Exception as e:
        return {"done": 4, "class": "runner-error", "message": str(e), "hash": "0"}

class Rep:
    def __init__(self, path):
        self.head, self.params, self.ops, self.sw, self.fl = {}, [], [], [], []
        for l in open(path):
            w = l.split(None, 1)
            if not w: continue
            k, v = w[0], (w[1].rstrip("\n") if len(w) > 1 else "")
            if k == "param": self.params.append(v)
            elif k == "op": self.ops.append(v)
            elif k == "sw": self.sw.append(v)
            elif k == "fault": self.fl.append(v)
            elif k != "#": self.head[k] = v
    def write(self, path, ops=None, sw=None, fl=None, cls=None, hsh=None, comment=""):
        with open(path, "w") as f:
            for c in comment.split("\n") if comment else []: f.write("# " + c + "\n")
            f.write("simreplay 1\n")
            for k in ("property", "scenario", "seed"): f.write(f"{k} {self.head[k]}\n")
            f.write(f"class {cls or self.head.get('class','')}\nhash {hsh or self.head.get('hash','0')}\n")
            for p in self.params: f.write(f"param {p}\n")
            for o in self.ops if ops is None else ops: f.write(f"op {o}\n")
            for s in self.sw if sw is None else sw: f.write(f"sw {s}\n")
            for x in self.fl if fl is None else fl: f.write(f"fault {x}\n")

def minimise(exe, path, cls, outdir, budget):
    """delta-debugs operations, forced switches and faults while the same violation persists"""
    rep = Rep(path); t0 = time.time(); tried = [0]
    cur = {"ops": rep.ops, "sw": rep.sw, "fl": rep.fl}
    key = cls.split(" ")[0]
    def ok(c, slot):
        if time.time() - t0 > budget: return False
        p = os.path.join(outdir, f".min{slot}.replay"); rep.write(p, c["ops"], c["sw"], c["fl"]); tried[0] += 1
        r = run_replay(exe, p, 40)
        return r["done"] == 2 and r["class"].split(" ")[0] == key
    if not ok(cur, 0): return None
    with ThreadPoolExecutor(NW) as ex:
        for rnd in range(3):
            before = sum(len(v) for v in cur.values())
            for part in ("ops", "fl", "sw"):
                n = 2
                while len(cur[part]) >= 1 and time.time() - t0 < budget:
                    items = cur[part]; n = min(n, len(items)); size = (len(items) + n - 1) // n
                    cands = []
                    for i in range(0, len(items), size):
                        d = dict(cur); d[part] = items[:i] + items[i + size:]; cands.append(d)
                    hit = None
                    for g in range(0, len(cands), NW):
                        res = list(ex.map(lambda a: ok(a[1], a[0]), enumerate(cands[g:g + NW])))
                        for c, r in zip(cands[g:g + NW], res):
                            if r: hit = c; break
                        if hit: break
                    if hit: cur = hit; n = max(n - 1, 2) if len(cur[part]) > 1 else 1
                    elif size == 1: break
                    else: n = min(n * 2, len(items))
                    if not cur[part]: break
            if sum(len(v) for v in cur.values()) == before: break
    return rep, cur, tried[0]

def main():
    prop = sys.argv[1]
    if prop not in CHECKS: err("unknown property " + prop)
    C = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        exe = B.build(prop, C["files"])
    except RuntimeError as e:
        err(str(e))
    t_build = time.time() - t0
    outdir = os.path.join(VERIF, "out", prop); os.makedirs(outdir, exist_ok=True)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]; rep = Rep(f); r = run_replay(exe, f)
        print(symbolize(exe, f"{r['class']}\n{r['message']}\n{r.get('notes','')}"))
        same = r["hash"] == rep.head.get("hash") and r["class"] == rep.head.get("class")
        print(f"replay of {f}: {'exactly the recorded execution' if same else 'differs from the recorded execution (changed code?)'}")
        if r["done"] == 2: print(f"VIOLATION property={prop} replay={f}"); sys.exit(1)
        sys.exit(0 if r["done"] == 1 else 2)
    for f in os.listdir(outdir):
        if f.endswith(".replay"): os.remove(os.path.join(outdir, f))
    listed = [l.split() for l in subprocess.run([exe], capture_output=True, text=True).stdout.split("\n") if l.strip()]
    scens = [s for p, s in listed if p == prop]
    if not scens: err("no scenarios for " + prop)
    budget = float(os.environ.get("SIM_BUDGET", C.get(tier, 40 if tier == "quick" else 600)))
    weights = C.get("weights", {}); tot = sum(weights.get(s, 1) for s in scens)
    knowns = known_findings(prop)
    stats, viol, unrepeated = {}, {}, []   # unrepeated: alarms whose seed held when run again - what the machine did, not what the code does
    def merge(s, d):
        a = stats.setdefault(s, {"runs": 0, "nontrivial": 0, "steps": 0, "switches": 0, "sim_ns": 0, "inconclusive": 0, "rechecks": 0, "nondet": 0, "errors": 0, "contended_runs": 0, "faulty_runs": 0, "max_threads": 0, "faults": {}, "probes": {}, "strategies": {}, "orders": set(), "distinct_outcomes": 0, "errtext": "", "wall": 0})
        for k in ("runs", "steps", "switches", "sim_ns", "inconclusive", "rechecks", "nondet", "errors", "contended_runs", "faulty_runs", "distinct_outcomes", "wall"): a[k] += d[k]
        a["max_threads"] = max(a["max_threads"], d["max_threads"]); a["errtext"] = a["errtext"] or d["errtext"]
        for k, v in d["faults"].items(): o = a["faults"].setdefault(k, [0, 0]); o[0] += v[0]; o[1] += v[1]
        for m in ("probes", "strategies"):
            for k, v in d[m].items(): a[m][k] = a[m].get(k, 0) + v
        a["orders"].update(d["orders"]); unrepeated.extend(d["unrepeated"])
        for v in d["violations"]: viol.setdefault((s, v["class"]), []).append(v)
    # slices: each scenario gets a first short slice, then the rest of its share
    slices = []
    for frac in (0.25, 0.75):
        for s in scens: slices.append((s, budget * frac * weights.get(s, 1) / tot))
    offset = {s: 0 for s in scens}
    new = []
    def unlisted():
        out = []
        for (s, c), vs in sorted(viol.items()):
            if (s, c) in seen_known: continue
            path = vs[0]["replay"]; r = run_replay(exe, path)
            text = symbolize(exe, r["class"] + "\n" + r["message"])
            k = next((d for rx, d in knowns if rx.search(text)), None)
            if k is not None: seen_known.add((s, c)); known_hits[k] = known_hits.get(k, 0) + sum(v["count"] for v in vs)
            else: out.append((s, c, vs, text))
        return out
    seen_known, known_hits = set(), {}
    for s, secs in slices:
        procs = [subprocess.Popen([exe, "batch", s, str(seed), str(offset[s] + w), str(NW), f"{secs:.2f}", outdir], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for w in range(NW)]
        with ThreadPoolExecutor(NW) as ex:
            outs = list(ex.map(lambda p: p.communicate(timeout=secs + 300), procs))
        mx = 0
        for p, (o, e) in zip(procs, outs):
            try: d = json.loads(o)
            except Exception: err(f"worker failed (exit {p.returncode}): {e[-1500:]}")
            mx = max(mx, d["runs"]); merge(s, d)
        offset[s] += (mx + 1) * NW
        new = unlisted()
        if new: break
    for s in stats:
        if stats[s]["nondet"] and not new: err(f"not deterministic: {s}: {stats[s]['errtext']}")
        if stats[s]["errors"] and not new: err(f"runner errors: {s}: {stats[s]['errtext']}")
    nviol = 0
    lines, unrepeatable = [], []
    for s, c, vs, text in new[:12]:
        if nviol == 3: break
        path = vs[0]["replay"]
        a, b = run_replay(exe, path), run_replay(exe, path); rec = Rep(path).head
        if not (a["done"] == b["done"] == 2 and a["hash"] == b["hash"] == rec["hash"] and a["class"] == c):
            unrepeatable.append(f"violation '{c}' of {s} does not replay exactly: recorded {rec['hash']}, replayed {a['hash']} ({a['class']}) and {b['hash']}"); continue
        final = os.path.join(outdir, f"violation-{len(lines)+1}.replay"); info = ""
        m = minimise(exe, path, c, outdir, 45 if not lines else 10)
        if m:
            rep, cur, tried = m
            rep.write(final, cur["ops"], cur["sw"], cur["fl"])
            r = run_replay(exe, final)
            if r["done"] == 2 and r["class"].split(" ")[0] == c.split(" ")[0]:
                text = symbolize(exe, r["class"] + "\n" + r["message"])
                info = f"minimised in {tried} replays: operations {len(rep.ops)} -> {len(cur['ops'])}, forced switches {len(rep.sw)} -> {len(cur['sw'])}, faults {len(rep.fl)} -> {len(cur['fl'])}"
                rep.write(final, cur["ops"], cur["sw"], cur["fl"], r["class"], r["hash"], text + "\n" + info)
                r2 = run_replay(exe, final)
                if r2["hash"] != r["hash"]: m = None
            else: m = None
        if not m: shutil.copy(path, final)
        print(f"--- violation in scenario {s} (seed {rec['seed']}, seen in {sum(v['count'] for v in vs)} runs)\n{text}\n{info}", flush=True)
        lines.append(f"VIOLATION property={prop} replay={final}"); nviol += 1
    if len(unrepeated) > 3 and not lines: err("not deterministic: " + "; ".join(unrepeated))
    if unrepeatable and not lines: err(unrepeatable[0])   # a violation is only ever reported with a file that reproduces it exactly
    for f in os.listdir(outdir):
        if f.startswith(".min"): os.remove(os.path.join(outdir, f))
    # ---- evidence ----
    runs = sum(a["runs"] for a in stats.values()); wall = time.time() - t0; search = sum(a["wall"] for a in stats.values()) / NW
    faults = {}
    for a in stats.values():
        for k, v in a["faults"].items(): o = faults.setdefault(k, {"injected": 0, "opportunities": 0}); o["injected"] += v[0]; o["opportunities"] += v[1]
    samples = []
    for s in list(stats)[:3]:
        p = os.path.join(outdir, "sample.replay")
        sd = subprocess.run([exe, "seedof", s, str(seed), "0"], capture_output=True, text=True).stdout.strip()
        try:
            r = json.loads(subprocess.run([exe, "seed", s, sd, p], capture_output=True, text=True, timeout=60).stdout)
            rp = Rep(p); samples.append({"scenario": s, "seed": int(sd), "parameters": rp.params, "operations(thread op a b c)": rp.ops[:40], "forced_switches": len(rp.sw), "faults": rp.fl[:20], "steps": r["steps"], "hash": r["hash"], "verdict": "violation " + r["class"] if r["done"] == 2 else "held"})
        except Exception: pass
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": nviol,
        "assumptions": C.get("assumptions", []) + ["Executions are interleavings of whole memory accesses (sequentially consistent); weaker hardware orders are covered only through the happens-before race checker."],
        "coverage": {"evaluations": runs, "distinct_nontrivial": sum(len(a["orders"]) for a in stats.values()),
            "rule": "One evaluation is one complete simulated execution decided by one seed (generated program, schedule, clock, faults). It is non-trivial when it finished and had more than two thread switches or at least one injected fault (a changed environment counts as one: leftover_memory); distinct by the hash of the order in which threads executed visible operations (locks, waits, conflicting memory accesses, blocking).",
            "samples": samples, "runs_per_hour": int(runs / search * 3600) if search else 0, "seeds": runs, "scheduler_steps": sum(a["steps"] for a in stats.values()), "context_switches": sum(a["switches"] for a in stats.values()),
            "simulated_seconds": round(sum(a["sim_ns"] for a in stats.values()) / 1e9, 3), "faults": faults,
            "distinct_outcomes": {s: a["distinct_outcomes"] for s, a in stats.items()}, "rare_conditions_reached": {s: a["probes"] for s, a in stats.items()},
            "per_scenario": {s: {k: a[k] for k in ("runs", "inconclusive", "contended_runs", "faulty_runs", "max_threads", "strategies")} for s, a in stats.items()},
            "determinism_rechecks": sum(a["rechecks"] for a in stats.values()), "workers": NW, "build_s": round(t_build, 1), "known_findings_hit": known_hits, "alarms_that_did_not_repeat": unrepeated,
            "components_real": C["real"], "components_simulated": C["stub"]}}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for rx, d in knowns: print(f"KNOWN-FINDING: property={prop} {d}")
    inc = sum(a["inconclusive"] for a in stats.values())
    print(f"{prop}: {runs} runs ({len(scens)} scenarios) in {search:.0f} s after a {t_build:.0f} s build; {ev['coverage']['distinct_nontrivial']} distinct interleavings, {sum(v['injected'] for v in faults.values())} faults injected, {inc} inconclusive", flush=True)
    for l in lines: print(l, flush=True)
    if lines: sys.exit(1)
    if runs == 0: err("nothing was run")
    if inc > runs * C.get("max_inconclusive", 0.05): err(f"{inc} of {runs} runs were inconclusive")
    for s, a in stats.items():
        for p in C.get("require", {}).get(s, []):
            if not a["probes"].get(p): err(f"scenario {s} never reached '{p}'")
    sys.exit(0)

try:
    main()
except SystemExit:
    raise
except BaseException as e:
    import traceback; traceback.print_exc(); print("ERROR: " + repr(e)); sys.exit(2)
