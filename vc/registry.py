"""Scenario (contract) registry, shared by the symbolic and the concrete runner."""
import os, importlib, sys
SCEN = {}
class Scenario:
    def __init__(self, prop, name, fn, under, fftw, samples, bounded, thorough_only, sym, opts):
        self.prop = prop; self.name = name; self.fn = fn; self.under = under; self.fftw = fftw
        self.samples = samples; self.bounded = bounded; self.thorough_only = thorough_only; self.sym = sym; self.opts = opts
def contract(prop, name, under=(), fftw=(False,), samples=12, bounded=None, thorough_only=False, sym=True, **opts):
    """under: functions of /repo put under contract by this scenario
       fftw: which configurations of the optional pyfftw dependency
       bounded: text of the bound when the check is only a bounded stand-in (sym=False)"""
    def d(fn):
        s = Scenario(prop, name, fn, under, fftw, samples, bounded, thorough_only, sym, opts)
        SCEN.setdefault(prop, []).append(s)
        return fn
    return d
LEMMAS = {}
DFT_LEMMAS = ('dft_numpy', 'twice', 'inverse', 'linear', 'reflect', 'impulse', 'shift', 'constant', 'conjugate', 'reindex', 'reindex_neg', 'total', 'product_of_spectra', 'plancherel')
def lemmas(prop, file, names):
    """lemmas over the contracts, proved by Lean (lean/<file>) each time the check runs"""
    LEMMAS.setdefault(prop, []).append((file, tuple(names)))
def load(prop):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path: sys.path.insert(0, here)
    importlib.import_module('props.' + prop)
    if any(len(s.fftw) > 1 for s in SCEN.get(prop, [])) and not any(f == 'DFT.lean' for f, _ in LEMMAS.get(prop, [])): lemmas(prop, 'DFT.lean', DFT_LEMMAS)
    return SCEN.get(prop, [])
class Skip(Exception): pass
