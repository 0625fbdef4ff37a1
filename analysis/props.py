"""Registry of the obligations of each property."""
import importlib
OBL = {}
EXPL = {}
GENERIC = ('Value-flow (gated SSA / global value numbering) summaries of the MIR of the functions below, computed without '
           'running the code, compared location by location with the values the property prescribes.')
ASSUME = [
    'concrete-core primitives (polynomial, GLWE, GGSW, FFT external product, samplers) behave as their models in analysis/model.py state',
    'torus arithmetic is exact modulo 2^64: FFT rounding and ciphertext noise are abstracted away',
    'dynamic calls through rayon and std iterators apply the closure once per element and join before returning',
]
MODULES = ['obl_oram', 'obl_crypto', 'obl_sys', 'obl_tree', 'obl_flow', 'obl_seed', 'obl_fresh', 'obl_query', 'obl_cli', 'obl_sim', 'obl_subs', 'obl_setup']


def obl(prop, title):
    def deco(f):
        OBL.setdefault(prop, []).append((title, f))
        return f
    return deco


def load():
    for m in MODULES:
        importlib.import_module(m)
