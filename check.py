#!/usr/bin/python3
"""Decides one property: builds the simulators from /repo, runs seeded simulations, reports.

usage: check.py PROPERTY [--tier quick|thorough] [--secs N]
exit 0: held on everything explored; 1: VIOLATION line and replay file; 2: no answer
"""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from plan import PLAN, REAL, STUB, TECH

def known_list(prop):
	out = []
	p = os.path.join(HERE, "known_findings.txt")
	for l in open(p) if os.path.exists(p) else []:
		m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", l.strip())
		if m and (prop is None or m.group(1) == prop): out.append((m.group(2), m.group(3)))
	return out

def main():
	a = sys.argv[1:]
	prop = a[0]
	tier = os.environ.get("VERIF_TIER", "quick")
	if "--tier" in a: tier = a[a.index("--tier") + 1]
	seed = int(os.environ.get("VERIF_SEED", "1"))
	pl = PLAN[prop]
	secs = pl["quick"] if tier == "quick" else pl["thorough"]
	if "--secs" in a: secs = float(a[a.index("--secs") + 1])
	t0 = time.time()
	outdir = os.path.join(HERE, "out"); os.makedirs(outdir, exist_ok=True)
	evdir = os.path.join(HERE, "evidence"); os.makedirs(evdir, exist_ok=True)
	parts = pl["parts"]
	try: bins = build.build(sorted({p[0] for p in parts}))
	except build.BuildError as e:
		print("the tree does not build for simulation:\n%s" % e); return 2
	known = known_list(prop)
	env = dict(os.environ, SIM_PROP=prop, SIM_KNOWN=",".join(k for k, _ in known_list(None)))
	env.pop("SIM_REEXEC", None)
	wsum = sum(p[2] for p in parts)
	res, viol, rc = [], None, 0
	for i, (variant, scens, w) in enumerate(parts):
		out = os.path.join(outdir, "%s-%d.json" % (prop, i))
		if os.path.exists(out): os.remove(out)
		cmd = bins[variant] + ["run", "--scen", scens, "--seed", str(seed), "--secs", "%.1f" % (secs * w / wsum), "--workers", str(min(8, os.cpu_count() or 8)),
			"--out", out, "--replay-dir", outdir, "--prop", prop, "--shrink", "40"]
		p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
		sys.stdout.write(p.stdout[-4000:])
		if p.returncode not in (0, 1) or not os.path.exists(out):
			print("the simulator gave no answer (status %d)" % p.returncode); rc = 2; break
		r = json.load(open(out)); r["scenarios"] = scens; res.append(r)
		if p.returncode == 1:
			viol = r["violation"]; viol["variant"] = variant
			# the minimised trace must fail in the same way in a process of its own
			q = subprocess.run(bins[variant] + ["replay", viol["replay"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
			viol["reproduced"] = q.returncode == 1
			rc = 1
			if q.returncode != 1: print("warning: the replay in a fresh process ended differently:\n" + q.stdout[-800:])
			break
	counters = {}
	for r in res:
		for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
	wall = time.time() - t0
	simwall = sum(r["wall"] for r in res) or 1e-9
	runs = sum(r["runs"] for r in res)
	ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=1 if viol else 0,
		coverage=dict(
			evaluations=runs,
			distinct_nontrivial=sum(r["distinct_nontrivial"] if pl.get("nontrivial", True) else r["distinct"] for r in res),
			rule=pl["rule"],
			samples=[s for r in res for s in r["samples"]],
			parts=[dict(variant=r["variant"], scenarios=r["scenarios"], runs=r["runs"], wall_s=r["wall"], seeds_per_hour=int(r["runs"] / max(r["wall"], 1e-9) * 3600), distinct_histories=r["distinct"], distinct_histories_with_faults_or_preemptions=r["distinct_nontrivial"], code_edges_reached=r["edges"], code_edges=r["edges_total"]) for r in res],
			runs_per_hour=int(runs / simwall * 3600),
			simulated_time=dict(unit="basic blocks of the library (the logical clock) and simulated I/O calls; the code reads no clock", basic_blocks=sum(r["steps"] for r in res), io_calls=sum(r["io_calls"] for r in res)),
			preemptions=sum(r["preemptions"] for r in res),
			faults_injected={k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")},
			probes={k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")},
			real_components=REAL, stub_components=STUB,
		),
		assumptions=pl["assumptions"])
	if viol: ev["violation"] = viol
	json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
	for k, what in known:
		if counters.get("known." + k, 0): print("KNOWN-FINDING: property=%s %s" % (prop, what))
		elif rc == 0: print("note: the known finding %s was not met in this run" % k)
	if rc == 1:
		print("%s: %s" % (viol["class"], viol["message"]))
		print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
	elif rc == 0: print("%s held on %d simulated runs (%s, %.0f s)" % (prop, runs, tier, wall))
	return rc
if __name__ == "__main__": sys.exit(main())
