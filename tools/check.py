#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property on /repo's tree.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: no answer (does not build, ...)."""
import json, os, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from props import PROPS


def probe_gone(k, outdir):
    """A known finding may name a program which shows it: exit 0 if it is gone."""
    if "probe" not in k:
        return False
    exe = os.path.join(outdir, "probe")
    gen_config(os.path.join(outdir, "probe_cfg"), False)
    cmd = ["gcc", "-std=gnu11", "-D_GNU_SOURCE", "-g", "-w", "-DNDEBUG", "-I" + os.path.join(outdir, "probe_cfg"),
           "-I" + os.path.join(REPO, "include/small"), "-I" + os.path.join(REPO, "include"),
           "-I" + os.path.join(REPO, "third_party"), os.path.join(VERIF, k["probe"])] + \
        lib_sources(False) + ["-o", exe, "-lpthread", "-lm"]
    try:
        sh(cmd)
        return subprocess.run([exe], stdout=subprocess.DEVNULL, timeout=60).returncode == 0
    except (BuildError, subprocess.TimeoutExpired):
        return False


def main():
    if "--selftest" in sys.argv:
        print("%d properties have checks" % len(PROPS))
        return 0
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    outdir = os.path.join(BUILD, prop + ("" if tier == "quick" else "-" + tier))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    runs = spec[tier]           # list of (Variant, dict(cases=, shards=, max_ops=, scale=))
    evidence_path = os.path.join(os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence")), prop + ".json")
    os.makedirs(os.path.dirname(evidence_path), exist_ok=True)
    try:
        os.unlink(evidence_path)
    except FileNotFoundError:
        pass
    with ThreadPoolExecutor(NPROC) as pool:
        built = {}
        todo = []
        for v, _ in runs:
            if v.name not in built:
                link, exe = v.build(pool, outdir)
                built[v.name] = exe
                todo.append(link)
        try:
            with ThreadPoolExecutor(NPROC) as p2:
                for f in [p2.submit(l) for l in todo]:
                    f.result()
        except BuildError as e:
            print("BUILD FAILED\n%s" % e)
            return 2
    t_build = time.time() - t0

    cmds = []
    for i, (v, o) in enumerate(runs):
        work = os.path.join(outdir, "run%d" % i)
        os.makedirs(work, exist_ok=True)
        cmds += run_shards(built[v.name], prop, v.name, seed, o.get("shards", 8),
                           o["cases"], o.get("max_ops", 0), o.get("scale", 1),
                           work, o.get("time_cap", 240 if tier == "quick" else 3000),
                           first=i * 64)

    stop = []
    waiting = [len(cmds)]

    def go(c):
        cmd, info = c
        if stop:
            return 0, "", None
        if tier == "quick" and "--time-cap" in cmd:
            # on a slow machine every variant gets its share of the time there is
            left = max(650 - (time.time() - t0), 30) / ((waiting[0] + NPROC - 1) // NPROC)
            k = cmd.index("--time-cap") + 1
            cmd[k] = str(int(min(float(cmd[k]), max(left, 15))))
        waiting[0] -= 1
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL)
        if p.returncode == 1 and os.environ.get("VERIF_FIRST"):
            stop.append(1)      # developer's shortcut: one violation is enough
        return p.returncode, p.stdout.decode(errors="replace"), info
    with ThreadPoolExecutor(NPROC) as pool:
        res = list(pool.map(go, cmds))

    evaluations = ops = 0
    hashes = set()
    classes, per_variant, samples = {}, {}, []
    rule = ""
    viol, errors, notes = [], [], []
    max_ops = 0
    for rc, out, info in res:
        if info is None:
            continue
        b = info["base"]
        try:
            st = json.load(open(b + ".json"))
        except Exception as e:
            errors.append("%s shard %d: no statistics (rc %s) %s" % (
                info["variant"], info["shard"], rc, out[-500:]))
            continue
        evaluations += st["evaluations"]
        ops += st["total_ops"]
        max_ops = max(max_ops, st["max_ops"])
        rule = st["rule"]
        pv = per_variant.setdefault(info["variant"], dict(evaluations=0, operations=0))
        pv["evaluations"] += st["evaluations"]
        pv["operations"] += st["total_ops"]
        for k, n in st["classes"].items():
            classes[k] = classes.get(k, 0) + n
        if info["shard"] < 2:
            samples += st["samples"][:1]
        try:
            data = open(b + ".hash", "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data[:len(data) // 8 * 8]))
        except FileNotFoundError:
            pass
        if rc == 1:
            viol.append((st, info))
        elif rc == 3:
            notes.append("not reproduced: %s shard %d [%s] %s" % (
                info["variant"], info["shard"], st["sig"], st["msg"]))
        elif rc != 0:
            errors.append("%s shard %d: rc %d %s" % (info["variant"], info["shard"], rc, out[-500:]))

    known = []
    try:
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        kf = {"findings": []}
    for k in kf["findings"]:
        if k["property"] == prop and k.get("status") == "open":
            known.append(k)
    known = [k for k in known if not probe_gone(k, outdir)]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": rule,
            "samples": samples[:6],
            "operations": ops,
            "longest_case_operations": max_ops,
            "classes": dict(sorted(classes.items())),
            "variants": {n: dict(per_variant.get(n, {}), flavour=v.flavour,
                                 defines=v.defines)
                         for n, v in {v.name: v for v, _ in runs}.items()},
            "build_s": round(t_build, 1),
        },
        "wall_s": round(time.time() - t0, 1),
    }
    if notes:
        ev["coverage"]["not_reproduced"] = notes
    rc = 0
    if viol:
        rdir = os.path.join(os.environ.get("VERIF_EVIDENCE", VERIF), "replays")
        os.makedirs(rdir, exist_ok=True)
        viols = []
        seen = set()
        for st, info in viol:
            if st["sig"] in seen:
                continue
            seen.add(st["sig"])
            dst = os.path.join(rdir, "%s-%s-seed%d-%s-%d.replay" % (
                prop, tier, seed, info["variant"], info["shard"]))
            with open(info["base"] + ".replay") as f, open(dst, "w") as g:
                g.write("# replay: python3 tools/replay.py %s\n" % dst)
                g.write("# variant %s tier %s\n" % (info["variant"], tier))
                g.write(f.read())
            print("%s: %s" % (prop, st["msg"] or st["sig"]))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            viols.append({"signature": st["sig"], "message": st["msg"], "replay": dst})
        ev["violations"] = len(viols)
        ev["coverage"]["violations"] = viols
        rc = 1
    else:
        ev["violations"] = 0
        if errors:
            rc = 2
    with open(evidence_path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for n in notes:
        print("NOTE", n)
    for e in errors:
        print("ERROR", e)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d operations, build %.1fs, total %.1fs -> %s" % (
        prop, tier, seed, evaluations, len(hashes), ops, t_build, time.time() - t0,
        {0: "held", 1: "VIOLATED", 2: "no answer"}[rc]))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(outdir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
