#!/usr/bin/env python3
"""Configuration record of the specification (Wire, Core) from a build configuration."""
import json, sys, tomllib
CAPS = {"CERT_CAP": 1, "CHAL_CAP": 2, "ENCRYPT_CAP": 6, "MAC_CAP": 7, "MUT_AUTH_CAP": 8, "KEY_EX_CAP": 9, "KEY_UPD_CAP": 14}
ASYM = {"ECDSA_ECC_NIST_P256": 4}
def cfg(path, crypto):
    t = tomllib.load(open(path, "rb"))
    return {
        "nslots": t["cert_chains"]["num_slots"], "chainMax": t["cert_chains"]["buf_size"],
        "depth": t["cert_chains"]["max_depth"], "trMax": t["transcript"]["buf_size"],
        "opqN": t["opaque_data"]["max_elements"], "opqMax": t["opaque_data"]["max_element_data_size"],
        "mbN": t["measurement"]["max_blocks"], "mbMax": t["measurement"]["max_size"],
        "nonceLen": 32 if crypto else 0, "caps": sorted(CAPS[c] for c in t["capabilities"]),
        "asyms": sorted(ASYM[a] for a in t["algorithms"]["asymmetric_signing"]),
        "crypto": crypto, "maxDigest": t["algorithms"]["max_digest_size"], "consts": consts(t),
    }
def consts(t):
    """The constants that a configuration file asks for"""
    return {
        "NUM_SLOTS": t["cert_chains"]["num_slots"], "MAX_CERT_CHAIN_SIZE": t["cert_chains"]["buf_size"],
        "MAX_CERT_CHAIN_DEPTH": t["cert_chains"]["max_depth"], "TRANSCRIPT_SIZE": t["transcript"]["buf_size"],
        "MAX_DIGEST_SIZE": t["algorithms"]["max_digest_size"], "MAX_SIGNATURE_SIZE": 64,
        "MAX_OPAQUE_ELEMENT_DATA_SIZE": t["opaque_data"]["max_element_data_size"],
        "MAX_OPAQUE_ELEMENTS": t["opaque_data"]["max_elements"],
        "MAX_MEASUREMENT_BLOCKS": t["measurement"]["max_blocks"], "MAX_MEASUREMENT_SIZE": t["measurement"]["max_size"],
        "CAPABILITIES": t["capabilities"], "ALGORITHMS_ASYMMETRIC_SIGNING": t["algorithms"]["asymmetric_signing"],
    }
if __name__ == "__main__":
    json.dump(cfg(sys.argv[1], sys.argv[2] == "crypto"), sys.stdout)
