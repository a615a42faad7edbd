TRUSTED = {
 'base': [
  'the verifier itself: /verif/vc (term normal forms, path exploration, symbolic values, loop rule) and z3 for arithmetic side conditions',
  'contracts of numpy / scipy / pyfftw / math in vc/shim.py (elementwise ufuncs, slicing/views, DFT = definition, trapz, roll, interpolation as an unspecified function of its data)',
  'CPython executing the repository source after the mechanical extraction described in vc/loader.py',
 ],
 'assumptions': [
  'machine floating point is read as exact real/complex arithmetic (constants that agree to 1e-12 are identified); rounding, overflow and NaN are covered only by the concrete cross-check',
  'divisors and arguments of sqrt/log are in their domain unless the contract checks it',
 ],
}
