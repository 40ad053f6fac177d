#!/usr/bin/env python3
"""check.py PROP [quick|thorough]

Decides one property: the design model is checked by TLC, the driver records
events of the real library (from /repo's working tree), and TLC validates the
recorded traces against the trace specification.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: failure of the machinery itself.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
from table import PROPS  # noqa: E402

PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
CHILDREN = []


def tlc(tmp, name, module, cfg, env=None, workers=8, args=(), heap="8g", spec_dir=None):
    """start TLC in its own copy of the specification; returns the process"""
    d = os.path.join(tmp, name)
    shutil.copytree(spec_dir or SPEC, d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    out = open(os.path.join(d, "out.txt"), "w")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-deadlock", "-config", "run.cfg", *args, module + ".tla"]
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT)
    CHILDREN.append(p)
    return p, d


def read(d):
    with open(os.path.join(d, "out.txt"), errors="replace") as f:
        return f.read()


def known_findings():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) clause=(\S+) (.*)", line)
            if m:
                res.append(m.groups())
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="lienn-")
    keep = os.environ.get("CHECK_KEEP")
    try:
        return run(prop, tier, seed, spec, tmp, t0)
    finally:
        for c in CHILDREN:  # nothing keeps running
            if c.poll() is None:
                c.kill()
        if keep:
            print("kept", tmp, file=sys.stderr)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def fail(msg):
    print("check error: " + msg, file=sys.stderr)
    return 2


def run_part(prop, tier, seed, spec, tmp, t0, out, n, count, violations, drive):
    # 1. behaviours generated from the specification
    for name, module, cfg, args in spec.get("gen", {}).get(tier, []):
        p, d = tlc(tmp, f"gen{n}-" + name, module, cfg, {"VERIF_SEED": str(seed)}, workers=1, args=[a.replace("$SEED", str(seed)) for a in args])
        if p.wait(timeout=400) not in (0,):
            return fail(f"generation {name}:\n" + read(d)[-3000:])
        beh = [m for m in re.findall(r'^"?@@BEH (.*?)"?$', read(d), re.M)]
        with open(os.path.join(out, name + ".beh"), "w") as f:
            f.write("\n".join(b.replace('\\"', '"') for b in beh))
        if not beh:
            return fail(f"generation {name} produced no behaviour")

    t1 = time.time()
    # 3. the driver observes the implementation
    per = spec.get("shards", {}).get(tier, 3)
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=HERE, PYTHONHASHSEED="0")
    procs = []
    for w in range(NPROC):
        errf = open(os.path.join(tmp, f"driver{n}-{w}.err"), "w")
        procs.append(subprocess.Popen([PY, os.path.join(HERE, "driver.py"), prop, spec["driver"], tier, str(seed), str(w), str(NPROC), str(per), out],
                                      env=env, stdout=errf, stderr=subprocess.STDOUT))
    CHILDREN.extend(procs)
    limit = 560 if tier == "quick" else 10000
    for w, p in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for q in procs:
                q.kill()
            return fail("the driver did not finish")
        if rc != 0:
            err = open(os.path.join(tmp, f"driver{n}-{w}.err")).read()[-3000:]
            if "/repo/" in err and rc == 1:
                # the library cannot even be loaded or enumerated
                violations.append({"part": n, "key": "driver", "clause": "raised", "event": {"error": err}})
            else:
                return fail(f"driver {w} exited with {rc}:\n{err}")
    drive[0] += time.time() - t1

    # 4. trace validation
    if not any(v["clause"] == "raised" for v in violations):
        shards = NPROC * per
        ids = list(range(1, shards + 1))
        size = {i: os.path.getsize(os.path.join(out, f"shard{i}.ndjson")) for i in ids}
        total = sum(size.values())
        ngroups = 8 if total > 24e6 else 4 if total > 3e6 else 1
        groups = [[] for _ in range(ngroups)]
        for i in sorted(ids, key=lambda i: -size[i]):  # the shards are validated by several TLC processes
            min(groups, key=lambda g: (sum(size[j] for j in g), len(g))).append(i)
        groups = [g for g in groups if g]
        procs = []
        for gi, g in enumerate(groups):
            gd = os.path.join(tmp, f"group{n}-{gi}")
            os.mkdir(gd)
            for k, i in enumerate(g):
                os.symlink(os.path.join(out, f"shard{i}.ndjson"), os.path.join(gd, f"shard{k + 1}.ndjson"))
            tenv = {"TRACE_DIR": gd, "TRACE_SHARDS": str(len(g)), "TRACE_PROP": prop}
            procs.append(tlc(tmp, f"validate{n}-{gi}", spec["module"], spec["cfg"], tenv, workers=max(1, 8 // len(groups)),
                             heap="12g" if len(groups) == 1 else "5g" if len(groups) == 4 else "3g"))
        limit = time.time() + (max(60, 840 - (time.time() - t0)) if tier == "quick" else 20000)
        lines = {}

        def event(s, k):
            if s not in lines:
                lines[s] = open(os.path.join(out, f"shard{s}.ndjson")).read().split("\n")
            return json.loads(lines[s][k - 1])

        missing = None
        for (p, d), g in zip(procs, groups):
            try:
                rc = p.wait(timeout=max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                for q, _ in procs:
                    q.kill()
                return fail("trace validation did not finish")
            txt = read(d)
            bad = [json.loads(json.loads('"' + b + '"')) for b in re.findall(r'^"@@BAD (.*)"$', txt, re.M)]
            done = [json.loads(json.loads('"' + b + '"')) for b in re.findall(r'^"@@DONE (.*)"$', txt, re.M)]
            for b in bad:
                c = b["clause"]
                if not c.startswith(prop + ":"):
                    continue
                ev = event(g[b["shard"] - 1], b["line"])
                violations.append({"part": n, "key": ev["key"], "clause": c, "event": ev})
            if not done or rc != 0:
                if "Parsing or semantic analysis failed" in txt:
                    return fail("specification:\n" + "\n".join(x for x in txt.split("\n") if x and not x.startswith(("Semantic", "Parsing", "Linting")))[:3000])
                if any(v["part"] == n for v in violations):
                    pass  # the trace was rejected before the end
                elif re.search(r"evaluat|Attempted|Error: ", txt) and "OutOfMemory" not in txt and rc > 0:
                    print("trace validation failed:\n" + txt[txt.find("Error:"):][:2500], file=sys.stderr)
                    if os.environ.get("CHECK_STRICT"):
                        return fail("specification error")
                    violations.append({"part": n, "key": "trace", "clause": prop + ":unexplained", "event": {"tlc": txt[-4000:]}})
                else:
                    return fail("trace validation:\n" + txt[-3000:])
                missing = set()
            else:
                dn = done[-1]
                count["events"] += dn["events"]
                count["states"] += dn["distinct"]
                count["transitions"] += dn["events"]
                missing = set(dn["missing"]) if missing is None else missing & set(dn["missing"])
        count["shards"] += shards
        if missing and not violations:
            return fail("domain not covered: " + ", ".join(map(str, sorted(missing))))
    return None


def run(prop, tier, seed, spec, tmp, t0):
    log = []
    count = {"states": 0, "transitions": 0, "events": 0, "shards": 0}
    violations = []  # (replay dict)
    outs = []

    # design models (in the background)
    designs = []
    for name, module, cfg in spec.get("design", {}).get(tier, spec.get("design", {}).get("quick", [])):
        p, d = tlc(tmp, "design-" + name, module, cfg, workers=2, heap="3g")
        designs.append((name, p, d))

    drive = [0.0]
    for n, part in enumerate([spec] + spec.get("more", [])):
        out = os.path.join(tmp, f"trace{n}")
        os.mkdir(out)
        outs.append((out, NPROC * part.get("shards", {}).get(tier, 3)))
        r = run_part(prop, tier, seed, part, tmp, t0, out, n, count, violations, drive)
        if r is not None:
            return r
    events, states, transitions = count["events"], count["states"], count["transitions"]
    t_drive = drive[0]

    # 5. design models
    for name, p, d in designs:
        rc = p.wait(timeout=700 if tier == "quick" else 20000)
        txt = read(d)
        if rc != 0:
            return fail(f"design model {name}:\n" + txt[-3000:])
        m = re.findall(r"(\d+) states generated, (\d+) distinct", txt)
        if m:
            transitions += int(m[-1][0])
            states += int(m[-1][1])
        log.append(f"{name}: {m[-1] if m else 'no states'}")

    # 6. report
    known = known_findings()
    rep = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rep, f))
    new = 0
    seen = set()
    for v in violations:
        hit = [k for k in known if k[0] == prop and k[1] == v["key"] and prop + ":" + k[2] == v["clause"]]
        if hit:
            if (v["key"], v["clause"]) not in seen:
                print(f"KNOWN-FINDING: property={prop} {hit[0][3]}")
            seen.add((v["key"], v["clause"]))
            continue
        new += 1
        if new <= 20:
            path = os.path.join(rep, f"{prop}-{new}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  clause {v['clause']}  event {v['key']}  {v['event'].get('exc', '')[:200]}")
    if new > 20:
        print(f"  ... and {new - 20} more")

    samples = []
    for pth in [os.path.join(o, f"shard{s}.ndjson") for o, m in outs for s in range(1, m + 1)]:
        if os.path.exists(pth):
            for line in open(pth):
                ev = json.loads(line)
                samples.append({k: ev[k] for k in ("op", "key", "tags")})
                break
    tagset = {}
    for pth in [os.path.join(o, f"shard{s}.ndjson") for o, m in outs for s in range(1, m + 1)]:
        if os.path.exists(pth):
            for line in open(pth):
                m = re.match(r'\{"op":("[^"]*")', line)
                if m:
                    tagset[json.loads(m.group(1))] = tagset.get(json.loads(m.group(1)), 0) + 1
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": count["shards"],
            "events_validated": events, "events_by_action": tagset, "design_models": log,
            "samples": samples[:8],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": new,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{prop} {tier}: {events} events, {states} states, {new} violations, drive {t_drive:.1f}s, total {time.time() - t0:.1f}s")
    return 1 if new else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except subprocess.TimeoutExpired as e:
        sys.exit(fail(str(e)))
