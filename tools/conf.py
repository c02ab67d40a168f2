"""Build configurations: run the repository's own configuration generator on
many configuration files and record what it made of them (C19)."""
import json, os, random, re, shutil, subprocess, tomllib
import gencfg
KNOWN = ["CERT_CAP", "CHAL_CAP", "ENCRYPT_CAP", "MAC_CAP", "MUT_AUTH_CAP", "KEY_EX_CAP", "KEY_UPD_CAP"]
P256 = "ECDSA_ECC_NIST_P256"
BASE = dict(slots=3, buf=2048, depth=5, tr=4096, dig=64, asym=[P256], blocks=7, msize=65, els=9, eld=129, caps=["CERT_CAP", "CHAL_CAP"])
TOML = """capabilities = %(caps)s
[cert_chains]
num_slots = %(slots)s
buf_size = %(buf)s
max_depth = %(depth)s
[transcript]
buf_size = %(tr)s
[algorithms]
max_digest_size = %(dig)s
asymmetric_signing = %(asym)s
[measurement]
max_blocks = %(blocks)s
max_size = %(msize)s
[opaque_data]
max_elements = %(els)s
max_element_data_size = %(eld)s
"""
def cases(seed, tier):
    rng = random.Random(seed)
    v = [{}]
    v += [dict(slots=n) for n in list(range(0, 18)) + [24, 255, 256, 257, 264, 65537]]
    v += [dict(buf=n) for n in (0, 1, 255, 256, 1024, 65534, 65535, 65536, 65537, 65538, 131072, 1000000)]
    v += [dict(depth=n) for n in (0, 1, 2, 23, 24, 25, 26, 48, 255, 256, 280)]
    v += [dict(asym=a) for a in ([], [P256, P256], ["ECDSA_ECC_NIST_P384"], [P256, "ECDSA_ECC_NIST_P384"], ["ECDSA_ECC_NIST_P521", P256],
          ["RSASSA_2048"], [""], ["ecdsa_ecc_nist_p256"], [P256 + " "], ["ECDSA_ECC_NIST_P25"], ["TPM_ALG_ECDSA_ECC_NIST_P256"])]
    v += [dict(caps=c) for c in [[], KNOWN, KNOWN[::-1], ["FOO"], [""], ["cert_cap"], KNOWN + ["FOO"], ["FOO"] + KNOWN, ["CERT_CAP "], ["CERT"],
          ["CERT_CAP", "CERT_CAP"], ["MEAS_CAP"], ["PSK_CAP"], ["HBEAT_CAP"], ["ALIAS_CERT_CAP"], ["CACHE_CAP"]]]
    v += [dict(caps=[c]) for c in KNOWN] + [dict(caps=[a, b]) for a in KNOWN[:3] for b in KNOWN]
    for k in ("tr", "dig", "blocks", "msize", "els", "eld"):
        v += [{k: n} for n in (0, 1, 255, 256, 65535, 65536, 100000)]
    for _ in range(60 if tier == "quick" else 1000):
        d = dict(slots=rng.choice([1, 2, 7, 8, 9, rng.randrange(12)]), buf=rng.choice([rng.randrange(70000), 65536, 65537, 512]),
                 depth=rng.choice([rng.randrange(30), 24, 25, 3]), tr=rng.randrange(200000), dig=rng.choice([32, 48, 64, rng.randrange(100)]),
                 asym=rng.choice([[P256], [P256], [], [P256] * 3, ["X"]]), blocks=rng.randrange(300), msize=rng.randrange(70000),
                 els=rng.randrange(300), eld=rng.randrange(70000), caps=rng.sample(KNOWN, rng.randrange(8)) + (["NO_CAP"] if rng.random() < .1 else []))
        v.append(d)
    out = []
    for d in v:
        f = dict(BASE, **d)
        t = TOML % dict(f, caps=json.dumps(f["caps"]), asym=json.dumps(f["asym"]))
        cryptos = (True, False) if len(d) < 5 or rng.random() < .3 else (rng.random() < .7,)
        for crypto in cryptos:
            g = f if crypto or "caps" in d and len(d) == 1 or rng.random() < .3 else dict(f, caps=[])
            out.append((TOML % dict(g, caps=json.dumps(g["caps"]), asym=json.dumps(g["asym"])), crypto, True))
    # not configurations at all
    good = TOML % dict(BASE, caps="[]", asym="[]")
    for a, b in (("num_slots = 3\n", ""), ("num_slots = 3", "num_slots = -1"), ("num_slots = 3", "num_slots = \"3\""), ("capabilities = []\n", ""),
                 ("max_digest_size = 64\n", ""), ("[transcript]\nbuf_size = 4096\n", ""), ("max_elements = 9\n", ""), ("max_blocks = 7\n", ""),
                 ("num_slots = 3", "num_slots = 3.5"), ("buf_size = 2048", "buf_size = -2048"), ("[cert_chains]", "[cert_chain]")):
        out.append((good.replace(a, b, 1), True, False))
    return out

MAIN = """fn q(v: &[&str]) -> String { format!("[{}]", v.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(",")) }
fn main() { %s }
"""
NAMES = ["NUM_SLOTS", "MAX_CERT_CHAIN_SIZE", "MAX_CERT_CHAIN_DEPTH", "TRANSCRIPT_SIZE", "MAX_DIGEST_SIZE", "MAX_SIGNATURE_SIZE",
         "MAX_OPAQUE_ELEMENT_DATA_SIZE", "MAX_OPAQUE_ELEMENTS", "MAX_MEASUREMENT_BLOCKS", "MAX_MEASUREMENT_SIZE"]
LISTS = ["CAPABILITIES", "ALGORITHMS_ASYMMETRIC_SIGNING"]
def compiled(d, files, edition):
    """The constants in each of the generated files, or None if they do not compile"""
    mods = "".join("#[allow(dead_code)] mod c%d { include!(%s); }\n" % (i, json.dumps(f)) for i, f in files)
    body = "".join('println!("{{\\"i\\":%d,%s}}", %s);\n' % (i, ",".join('\\"%s\\":{}' % n for n in NAMES + LISTS),
                   ", ".join(["c%d::%s" % (i, n) for n in NAMES] + ["q(c%d::%s)" % (i, n) for n in LISTS])) for i, _ in files)
    src = os.path.join(d, "all.rs")
    with open(src, "w") as f:
        f.write(mods + MAIN % body)
    r = subprocess.run(["rustc", "--edition", edition, "-A", "warnings", "-o", os.path.join(d, "all"), src], capture_output=True, text=True, cwd=d)
    if r.returncode:
        return None
    out = subprocess.run([os.path.join(d, "all")], capture_output=True, text=True, check=True).stdout
    return {c.pop("i"): c for c in map(json.loads, out.splitlines())}

def run(ch, repo, build, out, ToolError):
    d = os.path.join(ch.run, "conf")
    os.makedirs(d)
    t = tomllib.load(open(os.path.join(repo, "Cargo.toml"), "rb"))
    edition = t["package"].get("edition", "2015")
    dep = lambda k, v: "%s = %s" % (k, json.dumps(v) if isinstance(v, str) else
        "{ " + ", ".join("%s = %s" % (a, json.dumps(b)) for a, b in v.items()) + " }")
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "confgen"\nversion = "0.1.0"\nedition = "%s"\nbuild = false\n[[bin]]\nname = "confgen"\npath = %s\n[workspace]\n[dependencies]\n%s\n'
                % (edition, json.dumps(os.path.join(repo, "build.rs")), "\n".join(dep(k, v) for k, v in t.get("build-dependencies", {}).items())))
    shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(build, "target-conf"))
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env, capture_output=True, text=True, timeout=600)
    if r.returncode:
        raise ToolError("cannot build the configuration generator:\n" + r.stderr[-3000:])
    exe = os.path.join(d, "confgen")
    shutil.copy(os.path.join(build, "target-conf", "debug", "confgen"), exe)
    evs, files = [], []
    for i, (toml, crypto, wf) in enumerate(cases(ch.seed, ch.tier)):
        o = os.path.join(d, "o%d" % i)
        os.makedirs(o)
        with open(os.path.join(o, "in.toml"), "w") as f:
            f.write(toml)
        e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_FEATURE")}
        e.update(OUT_DIR=o, SPDM_CONFIG=os.path.join(o, "in.toml"), RUST_BACKTRACE="0")
        if crypto:
            e["CARGO_FEATURE_CRYPTO_RING"] = "1"
        r = subprocess.run([exe], cwd=repo, env=e, capture_output=True, text=True, timeout=60)
        made = os.path.join(o, "config.rs")
        ok = r.returncode == 0 and os.path.exists(made)
        ev = {"k": "conf", "wf": wf, "crypto": crypto, "res": "ok" if ok else "err", "c": {}, "f": gencfg.consts(tomllib.loads(toml)) if wf else {}, "toml": toml}
        evs.append(ev)
        if ok:
            files.append((i, made))
    got = compiled(d, files, edition)
    if got is None:
        got = {}
        for i, f in files:
            g = compiled(d, [(i, f)], edition)
            if g is None:
                evs[i]["res"] = "broken"
            else:
                got.update(g)
    for i, c in got.items():
        evs[i]["c"] = c
    with open(out, "w") as f:
        json.dump({"cfgs": [{"caps": [], "asyms": []}], "blobs": [], "provs": [],
                   "traces": [{"cfg": 1, "prov": 0, "honest": False, "sigclass": False, "label": "configuration %d" % i, "ev": [e]} for i, e in enumerate(evs)]}, f)
