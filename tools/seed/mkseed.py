#!/usr/bin/env python3
"""Make and confirm planted bugs: mkseed.py FILE.py [id...]

FILE.py defines SEEDS, a list of dicts: id, property, needs, what_it_breaks, edits [(file, old, new)], demo (main.rs),
and perhaps config (toml text for the demo).  Each is confirmed in a scratch copy of /repo: the patch builds, the
repository's tests pass with it, the demo passes without and fails with it.
"""
import json, os, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"
S = "/tmp/seedw/repo"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def scratch():
    if not os.path.isdir(S):
        os.makedirs("/tmp/seedw", exist_ok=True)
        sh("cp -a /repo %s" % S)
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (S, S, S))

def tests():
    env = open("/opt/vp/env.sh").read().replace("/repo", S)
    open("/tmp/seedw/env.sh", "w").write(env)
    t = open("/opt/vp/test.sh").read().replace("/opt/vp/env.sh", "/tmp/seedw/env.sh").replace("/repo", S)
    open("/tmp/seedw/test.sh", "w").write(t)
    sh("bash /tmp/seedw/test.sh /tmp/seedw/out.json")
    try:
        got = json.load(open("/tmp/seedw/out.json"))
    except Exception as e:
        return ["no result: %s" % e]
    base = json.load(open("/opt/vp/BASELINE.json"))
    def passed(d):
        if isinstance(d, dict):
            for k in ("stable", "passed"):
                if k in d:
                    v = d[k]
                    return set(v if isinstance(v, list) else [n for n, s in v.items() if s in ("pass", "passed", True)])
        return set(d)
    return sorted(passed(base) - passed(got))

def notmine(patch, sid):
    """Say which removed lines are not the base commit's."""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    f = None; ln = 0; tot = own = 0
    for l in patch.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): ln = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git -C /repo blame -l -s -L %d,%d -- %s" % (ln, ln, f)).stdout
            tot += 1; own += not b.lstrip("^").startswith(base[:39])
            ln += 1
        elif not l.startswith("+"): ln += 1
    print(sid, "removes %d lines, %d of them not the base's" % (tot, own))

def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=S)
    return r.returncode, (r.stdout + r.stderr)[-600:]

def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for s in m.SEEDS:
        if sys.argv[2:] and s["id"] not in sys.argv[2:]:
            continue
        if not sys.argv[2:] and os.path.isdir(os.path.join(OUT, s["id"])):
            continue
        scratch()
        d = "/tmp/seedw/" + s["id"]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f in ("demo.sh", "h.rs"):
            shutil.copy(os.path.join(HERE, f), d)
        open(d + "/main.rs", "w").write("mod h;\nuse h::*;\n" + s["demo"])
        if "config" in s:
            open(d + "/config.toml", "w").write(s["config"])
        for f, old, new in s["edits"]:
            p = os.path.join(S, f); t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "BAD EDIT", f, t.count(old)); break
            open(p, "w").write(t.replace(old, new))
        else:
            patch = sh("git -C %s diff" % S).stdout
            open(d + "/patch.diff", "w").write(patch)
            notmine(patch, s["id"])
            rc1, o1 = demo(d)
            miss = tests()
            sh("git -C %s checkout -q -- ." % S)
            rc0, o0 = demo(d)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            if rc0 == 0 and rc1 != 0 and not miss and "FAIL" in o1:
                dst = os.path.join(OUT, s["id"])
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(d, dst)
                print(s["id"], "KEPT:", o1.strip()[:150])
            else:
                print(s["id"], "NOT KEPT rc0=%d rc1=%d miss=%s\n--0: %s\n--1: %s" % (rc0, rc1, miss[:5], o0, o1))
        sys.stdout.flush()
main()
