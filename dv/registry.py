"""All contracts."""
import importlib
import verify

MODULES = ["c_relax", "c_intersect", "c_body_soil", "c_utils", "c_body_pos", "c_step", "c_types", "c_noise"]


def contracts():
    out = []
    for m in MODULES:
        out += importlib.import_module("contracts." + m).CONTRACTS
    return out


def load():
    return verify.Registry(contracts())
