"""Which sessions and which function-level cases decide which property.

GROUPS: drivers of the harness; CONFIGS: the build configurations under
configs/.  A property's plan is a list of (configuration, groups); every reject
that spec/Trace.tla attributes to the property counts, whatever group it is in.
"""
CRYPTO = ["std", "eight", "one", "nochal", "nocert", "md48", "big"]
CONFIGS = CRYPTO + ["nocrypto"]
RSP = ["rsp_phase", "rsp_wire", "rsp_slots", "rsp_offers", "rsp_caps", "rsp_buf", "rsp_restart", "rsp_room", "rsp_long", "rsp_sizes", "rsp_rand"]
REQ = ["req_phase", "req_wire", "req_version", "req_caps", "req_algs", "req_id", "req_auth", "req_hand", "req_buf", "req_room", "req_long", "req_sizes", "req_rand"]
NET = ["net_honest", "net_sig", "net_mitm", "net_hand", "net_long"]
ALL = RSP + REQ + NET

QUICK = {
    "C01": [("std", ["b_net", "b_far", "b_hand", "req_hand", "req_auth", "req_phase", "req_caps", "req_rand", "net_mitm", "net_sig", "req_id", "req_sizes"]), ("md48", ["req_auth", "net_mitm"]), ("nochal", ["req_caps"]), ("one", ["req_auth"])],
    "C02": [("std", ["b_req", "b_hand", "req_phase", "req_wire", "req_caps", "req_rand", "req_algs", "net_mitm"]), ("nochal", ["req_phase", "req_caps"]), ("nocert", ["req_phase", "req_caps"]), ("nocrypto", ["req_phase", "req_caps"])],
    "C03": [("std", ["b_rsp", "rsp_phase", "rsp_wire", "rsp_caps", "rsp_rand", "rsp_restart", "net_mitm"]), ("eight", ["rsp_phase"]), ("nochal", ["rsp_phase"]), ("nocrypto", ["rsp_phase"])],
    "C04": [("std", ["b_net", "b_rsp", "rsp_phase", "rsp_rand", "rsp_restart", "rsp_room", "rsp_wire", "req_phase", "req_rand", "req_wire", "req_buf", "req_auth", "req_hand", "net_hand", "net_honest", "net_mitm", "rsp_long", "req_long", "net_long", "rsp_sizes", "req_sizes"]), ("one", ["net_honest", "rsp_rand"])],
    "C05": [("std", ["b_rsp", "b_far", "rsp_slots", "rsp_caps", "rsp_rand", "rsp_phase", "rsp_restart", "net_honest", "rsp_sizes", "rsp_buf"]), ("eight", ["rsp_slots", "rsp_rand"]), ("md48", ["rsp_slots"]), ("one", ["rsp_slots"])],
    "C06": [("std", ["b_rsp", "rsp_restart", "rsp_rand", "net_honest", "rsp_long"]), ("eight", ["rsp_restart", "rsp_rand"]), ("nochal", ["rsp_restart"]), ("md48", ["rsp_restart"])],
    "C07": [("std", ["b_rsp", "b_req", "b_hand", "rsp_phase", "rsp_wire", "rsp_buf", "rsp_rand", "rsp_slots", "req_phase", "req_wire", "req_rand", "req_auth", "rsp_room", "req_room", "req_buf", "rsp_restart"]), ("nocrypto", ["rsp_phase", "req_phase"])],
    "C08": [("std", ["b_net", "rsp_offers", "rsp_slots", "req_algs", "rsp_wire", "net_mitm"]), ("md48", ["rsp_offers", "req_algs", "rsp_slots"]), ("nocrypto", ["rsp_offers", "req_algs"])],
    "C09": [("std", ["b_net", "req_version", "rsp_phase", "req_wire", "req_phase"]), ("nocrypto", ["req_version"]), ("one", ["req_version"])],
    "C10": [("std", ALL + ["p_codec", "p_meas", "p_store", "p_chain", "p_cursor", "p_der"]), ("one", ["rsp_rand", "rsp_wire", "req_rand", "req_wire", "rsp_slots", "p_codec", "p_chain"]), ("nocrypto", ["rsp_rand", "rsp_wire", "req_wire", "rsp_buf", "req_buf", "p_codec"]), ("eight", ["rsp_slots", "rsp_rand", "rsp_room", "p_store"]), ("md48", ["p_codec", "p_meas", "p_digest"]), ("big", ["p_bigstore", "p_bigchain", "p_bigmeas"])],
    "C11": [("std", ["b_net", "net_honest", "net_hand", "net_sig", "net_long"]), ("eight", ["b_net", "net_honest", "net_hand"]), ("one", ["net_honest", "net_long"]), ("nochal", ["b_net", "net_honest"]), ("nocert", ["b_net", "net_honest"]), ("md48", ["net_honest"]), ("nocrypto", ["b_net", "net_honest"]), ("big", ["net_honest"])],
    "C12": [("std", ["b_req", "b_net", "b_hand", "req_hand", "net_hand", "rsp_slots", "req_id", "rsp_phase", "req_rand", "net_honest", "rsp_sizes", "req_sizes", "rsp_buf"]), ("eight", ["rsp_slots", "req_id", "req_hand"]), ("md48", ["rsp_slots", "req_id"]), ("one", ["rsp_slots", "req_id"])],
    "C13": [("std", ["rsp_buf", "req_buf", "req_hand", "rsp_rand", "net_honest", "req_long"]), ("eight", ["rsp_buf", "req_buf"]), ("md48", ["rsp_buf", "req_buf"]), ("nocrypto", ["rsp_buf", "req_buf"])],
    "C14": [("std", ["p_names", "rsp_wire", "req_wire", "rsp_offers", "req_algs", "rsp_slots", "req_auth", "p_codec", "p_meas", "rsp_buf", "req_buf"]), ("eight", ["p_codec"]), ("md48", ["p_codec"]), ("nocrypto", ["p_codec"]), ("one", ["p_codec"]), ("big", ["p_bigstore"])],
    "C15": [("std", ["rsp_room", "req_room", "rsp_slots", "req_id", "p_store", "p_chain", "p_codec", "p_meas", "rsp_long"]), ("one", ["rsp_room", "req_room", "rsp_slots", "req_id", "p_store", "p_chain", "p_codec", "p_meas", "rsp_long"]), ("eight", ["rsp_room", "req_room", "rsp_slots", "req_id", "p_store"]), ("md48", ["p_store"]), ("big", ["p_bigstore", "p_bigchain", "p_bigmeas", "req_id"])],
    "C16": [("std", ["p_nonce", "rsp_slots", "rsp_rand", "req_rand", "req_buf", "net_mitm", "b_rsp", "rsp_restart"]), ("eight", ["p_nonce"]), ("nocert", ["p_nonce"])],
    "C17": [(c, ["p_meas"]) for c in ["std", "one", "eight", "md48", "nocrypto"]] + [("std", ["p_names"])] + [("big", ["p_bigmeas"])],
    "C18": [(c, ["rsp_caps", "req_caps"]) for c in CONFIGS] + [("std", ["rsp_slots", "p_names"]), ("nochal", ["b_net", "rsp_slots"]), ("nocert", ["b_net"])],
    "C19": [(None, ["conf"])] + [(c, ["p_const"]) for c in CONFIGS],
    "C20": [("std", ["net_sig", "p_der"])],
    "C21": [(c, ["p_chain"]) for c in ["std", "one", "eight", "md48", "nocrypto"]] + [("big", ["p_bigchain"])],
    "C22": [("std", ["p_cursor"]), ("big", ["p_bigstore"])],
    "C23": [("nochal", ["p_digest", "rsp_offers"]), ("std", ["p_digest", "p_names", "rsp_offers", "req_algs"]), ("md48", ["p_digest", "rsp_offers", "req_algs"]), ("one", ["p_digest"]), ("big", ["p_bigdig"])],
}

ASSUMPTIONS = [
    "the recorder (harness/) reports inputs, outputs, phases and transcripts as the public API exposes them",
    "ring and webpki verify signatures and chains correctly; certificates are those of fixtures/certs.json",
    "build configurations are those under configs/",
]

# bounds of the model checking: of the design, and of the behaviours that are replayed
BOUNDS = {
    "b_rsp": {"quick": {"design": {"Depth": 6, "Mem": 0}, "emit": {"Depth": 7, "Mem": 0}},
              "thorough": {"design": {"Depth": 9, "Mem": 0}, "emit": {"Depth": 8, "Mem": 1}}},
    "b_req": {"quick": {"design": {"Depth": 7, "Mem": 0}, "emit": {"Depth": 7, "Mem": 1}},
              "thorough": {"design": {"Depth": 7, "Mem": 0}, "emit": {"Depth": 7, "Mem": 2}}},
    "b_hand": {"quick": {"design": {"Depth": 6, "Mem": 0}, "emit": {"Depth": 7, "Mem": 0}},
               "thorough": {"design": {"Depth": 7, "Mem": 0}, "emit": {"Depth": 7, "Mem": 1}}},
    # one message after another altered; then the attacks of several steps, over several sessions
    "b_net": {"quick": {"design": {"Depth": 8, "Budget": 2, "Focus": "FALSE"}, "emit": {"Depth": 8, "Budget": 1, "Focus": "FALSE"}},
              "thorough": {"design": {"Depth": 10, "Budget": 3, "Focus": "FALSE"}, "emit": {"Depth": 10, "Budget": 2, "Focus": "FALSE"}}},
    "b_far": {"quick": {"design": {"Depth": 13, "Budget": 3, "Focus": "TRUE"}, "emit": {"Depth": 12, "Budget": 2, "Focus": "TRUE"}},
              "thorough": {"design": {"Depth": 14, "Budget": 4, "Focus": "TRUE"}, "emit": {"Depth": 13, "Budget": 3, "Focus": "TRUE"}}},
}

def module(group):
    return "Pure" if group.startswith("p_") or group == "conf" else "Trace"

def thorough(prop):
    """everything in every configuration, with more cases per driver"""
    quick = dict()
    for c, gs in QUICK[prop]:
        quick.setdefault(c, []).extend(gs)
    allg = sorted({g for gs in quick.values() for g in gs})
    conf = [(None, ["conf"])] if "conf" in allg else []
    return conf + [(c, [g for g in allg if g != "conf" and runs(c, g)]) for c in CONFIGS]

def runs(config, group):
    """whether a driver has something to drive in a configuration"""
    if config == "big":
        # sizes beyond 64 KiB have drivers of their own
        return group not in ("p_store", "p_chain", "p_codec", "p_meas", "rsp_room", "rsp_long", "req_long", "net_long", "rsp_sizes", "req_sizes", "b_rsp", "b_req", "b_net", "b_far", "b_hand")
    return not group.startswith("p_big") and (config != "nocrypto" or group not in ("p_digest", "p_nonce", "net_sig"))

def jobs(prop, tier, session_job):
    todo = QUICK[prop] if tier == "quick" else thorough(prop)
    return [(c, session_job(c, g, module(g))) for c, gs in todo for g in gs]

DEFAULT_NOTE = ("Exhaustive for the specification within its bounds; for the code: every recorded step (systematic and seeded random "
                "drivers, several build configurations) is a step of the specification. Trusts the recorder, TLC, ring and webpki.")
PURE = "TLA+ specification of the functions (Wire, Pure) as a state machine of calls; recorded calls of the real code validated against it with TLC"
BOTH = "TLA+ specification (Wire, Core, Pure) checked with TLC; recorded sessions and calls of the real code validated against it (Trace, Pure)"
PURE_NOTE = ("Every recorded call (systematic over the boundaries named in DESIGN.md, then seeded random) with its result is a step of the "
             "specification. Inputs outside the recorded ones are covered by no proof. Trusts the recorder and TLC")
NOTES = {
    "C10": (BOTH, DEFAULT_NOTE), "C14": (BOTH, DEFAULT_NOTE), "C15": (BOTH, DEFAULT_NOTE),
    "C16": (PURE, PURE_NOTE + "; freshness is judged over all nonces of the recorded handshakes, and that each part of a nonce was delivered by the system random source, whose own quality is not judged."),
    "C17": (PURE, PURE_NOTE + "."), "C19": ("TLA+ specification of the generator (Pure); runs of the repository's own build script, and of the compiled constants, validated against it with TLC", PURE_NOTE + " and rustc."),
    "C20": (BOTH, PURE_NOTE + " and ring for the verification of converted signatures."), "C21": (PURE, PURE_NOTE + "."),
    "C22": (PURE, PURE_NOTE + "."), "C23": (BOTH, PURE_NOTE + ", and Python's hashlib as the oracle of the standard digests."),
}
NA = {}
