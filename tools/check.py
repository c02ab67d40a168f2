#!/usr/bin/env python3
"""Decide one property: model-check the specification, drive the real code, validate what it did against the specification.

exit 0: the property held on everything explored; 1: VIOLATION line(s); 2: an error of the check itself.
"""
import hashlib, json, os, queue, re, shutil, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import conf, plan, gencfg
REPO = os.environ.get("SPDM_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PAR = 4          # TLC runs at a time

class ToolError(Exception):
    pass

def say(*a):
    print(*a, flush=True)

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.run = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.run, exist_ok=True)
        self.lock = threading.Lock()
        self.rejects = []        # dicts
        self.errors = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0, "model_states": 0,
                    "behaviours_replayed": 0, "runs": [], "situations": {}, "samples": []}
        self.fields = True

    # ------------------------------------------------------------- building
    def build(self, config):
        crypto = config != "nocrypto"
        env = dict(os.environ, SPDM_CONFIG=os.path.join(ROOT, "configs", config + ".toml"),
                   CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTFLAGS="--cfg spdm_verif")
        for fields in ([True, False] if self.fields else [False]):
            feats = (["crypto"] if crypto else []) + (["fields"] if fields else [])
            r = subprocess.run(["cargo", "build", "--offline", "-q", "--features", ",".join(feats)],
                               cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True, timeout=600)
            if r.returncode == 0:
                self.fields = fields
                break
            if not fields:
                raise ToolError("cannot build the harness for %s:\n%s" % (config, r.stderr[-4000:]))
        out = os.path.join(self.run, "harness-" + config)
        shutil.copy(os.path.join(BUILD, "target", "debug", "harness"), out)
        with open(os.path.join(self.run, config + ".cfg"), "w") as f:
            json.dump(gencfg.cfg(env["SPDM_CONFIG"], crypto), f)
        return out

    # ------------------------------------------------------------- running
    def harness(self, config, group, out, extra=()):
        cmd = [os.path.join(self.run, "harness-" + config), group, "--cfg", os.path.join(self.run, config + ".cfg"),
               "--certs", os.path.join(ROOT, "fixtures", "certs.json"), "--seed", str(self.seed), "--tier", self.tier,
               "--out", out] + list(extra)
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=700, cwd=self.run)
        except subprocess.TimeoutExpired:
            raise ToolError("harness %s %s: no end" % (config, group))
        if r.returncode == 0:
            return True
        hang = re.search(r"^HANG .*", r.stdout, re.M)
        if r.returncode == 3 and hang:
            what = hang.group(0)
        elif r.returncode < 0:
            last = r.stdout.strip().splitlines()[-1:] or [""]
            what = "killed by signal %d %s" % (-r.returncode, (r.stderr.strip().splitlines() or [""])[-1])
        else:
            raise ToolError("harness %s %s: exit %d\n%s" % (config, group, r.returncode, (r.stdout + r.stderr)[-3000:]))
        self.reject(config, group, None, 0, "does not return: " + what[:300], {"C10"}, None)
        with self.lock:
            if self.prop != "C10":
                self.errors.append("harness %s %s: %s" % (config, group, what[:300]))
        return False

    def tlc(self, module, cfg, env, workers=2, extra=(), heap="3g", timeout=800):
        meta = os.path.join(self.run, "meta-%s-%s" % (module, threading.get_ident()))
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec"), env=dict(os.environ, **env), capture_output=True,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC %s: no end" % module)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
    INIT = re.compile(r"Finished computing initial states: (\d+) distinct")
    def validate(self, config, group, module, path):
        rc, out = self.tlc(module, module + ".cfg", {"TRACE": path}, heap="6g" if group.startswith("p_big") else "3g")
        m = self.STATS.search(out)
        if rc != 0 or not m:
            raise ToolError("TLC %s on %s %s: exit %d\n%s" % (module, config, group, rc, out[-3000:]))
        data = json.load(open(path))
        init = int((self.INIT.search(out) or [0, 0])[1])
        n = len(data["traces"])
        if init != n:
            raise ToolError("TLC saw %d of %d sessions of %s %s" % (init, n, config, group))
        with self.lock:
            self.cov["states"] += int(m[2]); self.cov["transitions"] += int(m[1]) - init
            self.cov["traces_validated_against_impl"] += n
            self.cov["events"] += sum(len(t["ev"]) for t in data["traces"])
            self.cov["runs"].append("%s/%s: %d sessions" % (config, group, n))
            for t in data["traces"]:
                for e in t["ev"]:
                    key = situation(data, e)
                    self.cov["situations"][key] = self.cov["situations"].get(key, 0) + 1
            if n and len(self.cov["samples"]) < 6:
                self.cov["samples"].append(decode(data, data["traces"][n // 2], config, group))
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"([^"]*)",\s*\{([^}]*)\}\s*>>', out):
            t, k, aspect = int(m[1]), int(m[2]), m[3]
            props = set(re.findall(r'"(\w+)"', m[4]))
            self.reject(config, group, data["traces"][t - 1]["label"], k, aspect, props,
                        decode(data, data["traces"][t - 1], config, group, k))
        if out.count('"REJECT"') != len(re.findall(r'<<\s*"REJECT",\s*\d+,\s*\d+,\s*"[^"]*",\s*\{[^}]*\}\s*>>', out)):
            raise ToolError("cannot read a REJECT line of %s %s" % (config, group))

    def reject(self, config, group, label, k, aspect, props, session):
        with self.lock:
            self.rejects.append(dict(config=config, group=group, label=label, event=k, aspect=aspect,
                                     props=sorted(props), session=session))

    # ------------------------------------------------------------- the whole
    def go(self, jobs):
        """jobs: list of (config or None, function taking this check)"""
        byconf = {}
        for c, f in jobs:
            byconf.setdefault(c, []).append(f)
        q = queue.Queue()
        def work():
            while True:
                f = q.get()
                if f is None:
                    return
                try:
                    f(self)
                except ToolError as e:
                    with self.lock:
                        self.errors.append(str(e))
                except Exception as e:
                    import traceback
                    with self.lock:
                        self.errors.append(traceback.format_exc())
        ts = [threading.Thread(target=work) for _ in range(PAR)]
        for t in ts:
            t.start()
        try:
            for f in byconf.pop(None, []):
                q.put(f)
            for c in byconf:
                self.build(c)
                for f in byconf[c]:
                    q.put(f)
        except ToolError as e:
            self.errors.append(str(e))
        for _ in ts:
            q.put(None)
        for t in ts:
            t.join()

    def finish(self):
        known = [l.strip() for l in open(os.path.join(ROOT, "known-findings.txt"))] if os.path.exists(os.path.join(ROOT, "known-findings.txt")) else []
        mine, listed = [], set()
        for r in self.rejects:
            if self.prop not in r["props"]:
                continue
            key = "finding: property=%s %s" % (self.prop, r["aspect"])
            hit = [l for l in known if l.startswith("finding: property=%s " % self.prop)
                   and l.split(" ", 2)[2].split(" | ")[0] == r["aspect"] and (l.split(" | ")[1:2] or [r["label"]])[0] == r["label"]]
            if hit:
                listed.add(hit[0].split(" ", 2)[2])
            else:
                mine.append(r)
        for l in sorted(listed):
            say("KNOWN-FINDING: property=%s %s" % (self.prop, l))
        cov = self.cov
        if cov["samples"] == []:
            cov["samples"] = ["none"]
        cov["situations"] = dict(sorted(cov["situations"].items()))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "wall_s": round(time.time() - self.t0, 1), "violations": len(mine),
                       "assumptions": plan.ASSUMPTIONS}, f, indent=1)
        shutil.rmtree(self.run, ignore_errors=True)
        if mine:
            seen, n = set(), 0
            rdir = os.path.join(BUILD, "replays", self.prop)
            shutil.rmtree(rdir, ignore_errors=True)
            os.makedirs(rdir)
            for r in mine:
                k = (r["aspect"], r["group"])
                if k in seen or n >= 8:
                    continue
                seen.add(k); n += 1
                path = os.path.join(rdir, "%d.json" % n)
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, **r), f, indent=1)
                say("%s/%s: session '%s', event %d: %s" % (r["config"], r["group"], r["label"], r["event"], r["aspect"]))
                say("VIOLATION property=%s replay=%s" % (self.prop, path))
            say("%d disagreements" % len(mine))
            return 1
        if self.errors:
            for e in self.errors[:5]:
                say("ERROR", e)
            return 2
        other = sorted({p for r in self.rejects for p in r["props"]})
        if other:
            say("note: the code disagrees with the specification about", other)
        say("%s: held; %d sessions, %d events, %d model states, %.0f s" % (self.prop, cov["traces_validated_against_impl"],
            cov["events"], cov["model_states"], time.time() - self.t0))
        return 0

NAMES = {0x84: "GET_VERSION", 0xe1: "GET_CAPABILITIES", 0xe3: "NEGOTIATE_ALGORITHMS", 0x81: "GET_DIGESTS", 0x82: "GET_CERTIFICATE",
         0x83: "CHALLENGE", 4: "VERSION", 0x61: "CAPABILITIES", 0x63: "ALGORITHMS", 1: "DIGESTS", 2: "CERTIFICATE",
         3: "CHALLENGE_AUTH", 0x7f: "ERROR", 0xe0: "GET_MEASUREMENTS", 0x60: "MEASUREMENTS"}
def blob(data, i):
    return data["blobs"][i - 1] if i else []
def situation(data, e):
    b = None
    for k in ("req", "rsp", "out"):
        if k in e and isinstance(e[k], int):
            b = blob(data, e[k]); break
    name = "" if b is None else " " + NAMES.get(b[1] if len(b) > 1 else -1, "other")
    if e["k"] == "dec" or name == "":
        name = "".join(" " + e[x] for x in ("t", "op", "cls", "var") if x in e)
    return "%s%s -> %s%s" % (e["k"], name, e.get("res", ""), " " + e["ph"] if "ph" in e else "")
def decode(data, t, config, group, upto=None):
    ev = []
    evs = t["ev"][:upto]
    for e in evs if len(evs) < 60 else evs[:20] + evs[-30:]:
        d = {}
        for k, v in e.items():
            if k in ("req", "rsp", "out", "tb", "in", "re", "data") and isinstance(v, int) and not isinstance(v, bool):
                v = bytes(blob(data, v)).hex()
                v = v if len(v) < 400 else v[:400] + "... (%d bytes)" % (len(v) // 2)
            if k not in ("std", "fx", "th", "tw", "hf"):
                d[k] = v
        ev.append(d)
    return {"config": config, "group": group, "label": t.get("label"), "events": ev if len(ev) < 40 else ev[:20] + ["..."] + ev[-19:]}

def add_digests(path):
    """The standard digests of everything digested, by another implementation"""
    d, memo = json.load(open(path)), {}
    def std(i):
        if i not in memo:
            memo[i] = [list(getattr(hashlib, h)(bytes(blob(d, i))).digest()) for h in ("sha256", "sha384", "sha512")]
        return memo[i]
    for t in d["traces"]:
        for e in t["ev"]:
            if e["k"] in ("dwhole", "dfin"):
                e["std"] = std(e["all"])
    json.dump(d, open(path, "w"))

def conf_job(ch):
    out = os.path.join(ch.run, "conf.json")
    conf.run(ch, REPO, BUILD, out, ToolError)
    ch.validate("-", "conf", "Pure", out)

MC = {"b_rsp": "MCRsp", "b_req": "MCReq", "b_net": "MCNet", "b_far": "MCNet", "b_hand": "MCHand"}
def behaviour_job(config, group):
    """Model-check the design, and replay its behaviours into the real peers"""
    module = MC[group]
    def f(ch):
        bound = plan.BOUNDS[group][ch.tier]
        base = open(os.path.join(ROOT, "spec", module + ".cfg")).read()
        def run(emit, name, workers):
            text = base
            for k, v in dict(bound["emit" if emit else "design"], Emit=str(emit).upper()).items():
                text, n = re.subn(r"^( *%s = ).*$" % k, r"\g<1>%s" % v, text, flags=re.M)
                if n != 1:
                    raise ToolError("no %s in %s.cfg" % (k, module))
            if emit:
                text = re.sub(r"^(INVARIANTS|PROPERTIES).*$", "", text, flags=re.M)
            cfg = os.path.join(ch.run, "%s-%s.cfg" % (config, name))
            with open(cfg, "w") as g:
                g.write(text)
            out = os.path.join(ch.run, "%s-%s.json" % (config, name))
            rc, log = ch.tlc(module, cfg, {"CFG": os.path.join(ch.run, config + ".cfg"), "OUT": out}, workers=workers)
            m = ch.STATS.search(log)
            if rc != 0 or not m:
                raise ToolError("TLC %s for %s: exit %d\n%s" % (module, config, rc, log[-3000:]))
            return log, out, m
        if bound["design"]:
            m = run(False, group + "-design", 2)[2]
            with ch.lock:
                ch.cov["model_states"] += int(m[2])
                ch.cov["transitions"] += int(m[1])
        log, out, m = run(True, group + "-emit", 1)
        paths = {}
        for x in re.finditer(r'^<<"B", (\d+), <<([^>]*)>>, (\d+)>>$', log, re.M):
            paths[(int(x[1]), tuple(int(i) for i in x[2].split(",")))] = int(x[3])
        if len(paths) != log.count('<<"B", '):
            raise ToolError("cannot read the behaviours of %s" % module)
        inner = {(p, q[:-1]) for p, q in paths}
        data = json.load(open(out))
        data["paths"] = [[p, list(q), r] for (p, q), r in sorted(paths.items()) if (p, q) not in inner]
        behav = out + ".paths"
        with open(behav, "w") as g:
            json.dump(data, g)
        out = os.path.join(ch.run, "%s.%s.json" % (config, group))
        if ch.harness(config, group, out, ["--behav", behav]):
            ch.validate(config, group, "Trace", out)
            with ch.lock:
                ch.cov["behaviours_replayed"] += len(data["paths"])
            os.remove(out)
    return f

def session_job(config, group, module):
    if group == "conf":
        return conf_job
    if group in MC:
        return behaviour_job(config, group)
    def f(ch):
        out = os.path.join(ch.run, "%s.%s.json" % (config, group))
        if ch.harness(config, group, out):
            if group in ("p_digest", "p_bigdig"):
                add_digests(out)
            ch.validate(config, group, module, out)
            os.remove(out)
    return f

def main():
    what = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    if what == "setup":
        ch = Check("setup", "quick", seed)
        ch.build("nocrypto"); ch.build("std")
        shutil.rmtree(ch.run, ignore_errors=True)
        say("setup done"); return 0
    if what == "replay":
        r = json.load(open(sys.argv[2]))
        ch = Check(r["property"], r["tier"], r["seed"])
        ch.go([(None if r["group"] == "conf" else r["config"], session_job(r["config"], r["group"], plan.module(r["group"])))])
        hits = [x for x in ch.rejects if x["label"] == r["label"] and x["aspect"] == r["aspect"]]
        shutil.rmtree(ch.run, ignore_errors=True)
        say("reproduced: %d" % len(hits)); return 1 if hits else 0
    ch = Check(what, tier, seed)
    ch.go(plan.jobs(what, tier, session_job))
    return ch.finish()

if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        say("ERROR", e); sys.exit(2)
