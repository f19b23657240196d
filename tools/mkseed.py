#!/usr/bin/env python3
"""mkseed.py ID PROPERTY WORKDIR: makes seeded/ID from the uncommitted change in
the worktree WORKDIR and the files WORKDIR.demo/*; needs and what it breaks are
read from WORKDIR.demo/meta. Confirms that the demonstration works both ways."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(id, prop, wd):
    dd = wd + ".demo"
    out = os.path.join(V, "seeded", id)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    diff = subprocess.run(["git", "-C", wd, "diff"], stdout=subprocess.PIPE, check=True).stdout
    assert diff
    open(out + "/patch.diff", "wb").write(diff)
    for f in os.listdir(os.path.join(V, "tools/seedkit")):
        shutil.copy(os.path.join(V, "tools/seedkit", f), out)
    meta = open(dd + "/meta").read().strip().split("\n")
    for f in os.listdir(dd):
        if f != "meta":
            shutil.copy(os.path.join(dd, f), out)
    json.dump({"property": prop, "needs": meta[0], "what_it_breaks": meta[1]}, open(out + "/meta.json", "w"), indent=1)
    os.chmod(out + "/demo.sh", 0o755)
    # unused parts of the kit go away
    demo = open(out + "/demo.sh").read()
    if "kit_tool" not in demo:
        for f in ("hmactools_stubs.c", "libcfile.h", "libcsplit.h", "libcnotify.h", "libclocale.h", "libuna.h", "libcpath.h"):
            os.unlink(os.path.join(out, f))
    clean = wd + ".clean"
    for tree, want in ((clean, True), (wd, False)):
        r = subprocess.run(["bash", out + "/demo.sh"], cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        ok = (r.returncode == 0) == want and r.returncode != 99
        print("%s on %s: rc %d %s" % (id, "clean" if want else "changed", r.returncode, "ok" if ok else "WRONG"), r.stdout[-300:].strip())
        if not ok:
            return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(*sys.argv[1:]))
