"""Developer helper: write /verif/seeded/<id> from an edit and a demonstration."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, edits, needs, breaks, demo, mode="plain", flags=""):
    """edits: [(file, old, new), ...]; every old text occurs exactly once."""
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, a, b in edits:
        s = files.setdefault(f, open("/repo/" + f).read())
        assert s.count(a) == 1, (id, f, s.count(a), a)
        files[f] = s.replace(a, b)
    t = tempfile.mkdtemp(prefix="mkseed")
    out = ""
    for f, s in files.items():
        p = os.path.join(t, "x")
        open(p, "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, p],
                           stdout=subprocess.PIPE, text=True)
        assert r.stdout, (id, "no change")
        out += r.stdout
    shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "w").write(out)
    shutil.copy(os.path.join(V, "tools", "demo_template.sh"), os.path.join(d, "demo.sh"))
    with open(os.path.join(d, "demo.c"), "w") as g:
        g.write("/* MODE: %s */\n" % mode)
        if flags:
            g.write("/* CFLAGS: %s */\n" % flags)
        g.write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
