"""Generates properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pynlo/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, note=None, technique=None):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': [S + f for f in files], 'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}}
    if state: d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state]
    d['_note'] = note or ''
    for f in files: assert os.path.exists('/repo/src/pynlo/' + f), f
    P.append(d)

PB = 'light/PulseBase.py'; DP = 'light/DerivedPulses.py'; FB = 'media/fibers/fiber.py'; SS = 'interactions/FourWaveMixing/SSFM.py'
OD = 'util/ode_solve/'; TW = 'interactions/ThreeWaveMixing/'
prop('C01', 'Pulse grids stay consistent under any sequence of configuration changes',
     'After any sequence of constructing a pulse and changing its number of points, centre wavelength or frequency, time window, time step, window width in frequency or repetition rate, every grid quantity it reports (time, relative and absolute frequency, wavelength, steps, windows, centres), in every unit system, equals the value its definition gives for the current settings. Reading any quantity, or writing into an array that was read, never changes what is reported later.',
     ['inputs', 'histories'], 'every even grid size, every positive time window and centre wavelength, every sequence of setters and reads (cached or not), nm/ps and mks views',
     'Tests read a handful of values after one construction; the values are cached, so a stale or aliased array shows only after particular set/read sequences and for particular units.',
     [PB], [('grid attributes and their caches', PB + ': calc grids, __*cache properties'), ('setters', PB + ': set_NPTS, set_time_window_*, set_center_wavelength_*, set_frep_*')],
     [('cache key', 'which settings the cached grid belongs to', PB + ': _cache_* / hash')])
prop('C02', 'Time-domain and frequency-domain fields of a pulse are one Fourier pair',
     'Whatever field is stored through either domain, the field read in the other domain is its centred discrete Fourier transform (forward and backward being exact inverses), on grids of any even size and with either FFT back end. Storing a field keeps its own copy: later writes to the caller\'s array, or to an array that was read, do not reach the pulse.',
     ['inputs', 'histories', 'configurations'], 'every complex field, every even grid size, both FFT back ends, every order of writes and reads',
     'Round-trip tests cannot see a wrong shift, sign or normalisation that cancels between the two directions, and only sample a few sizes and one FFT back end.',
     [PB, 'util/pynlo_ffts.py'], [('transforms', 'util/pynlo_ffts.py: FFT_t, IFFT_t'), ('field access', PB + ': AW/AT, set_AW, set_AT')])
prop('C03', 'Pulse energy and average power agree with the stored field (Parseval)',
     'The energy reported by a pulse equals the integral of its squared envelope over time, equals energy computed from its spectrum, and energy times repetition rate equals the average power; setting energy, average power or peak intensity scales the field so that exactly that value is then reported and changes nothing else (phase and shape are preserved).',
     ['inputs', 'histories'], 'every field, grid, repetition rate and requested energy or power', 'Tests compare single Gaussian or sech pulses of one size; a unit or scaling slip in one constructor or unit system is invisible there.',
     [PB, DP], [('energy', PB + ': calc_epp, set_epp'), ('average power in constructors', DP)])
prop('C04', 'Each constructor produces the field it documents',
     'For sech, Gaussian, sinc, CW, noise and measured (FROG-file) pulses of every width, peak power or average power, energy, chirp and grid, the stored field is the documented profile: requested width, peak power or average power, quadratic and cubic spectral phase and centre. A field written to a FROG file and read back on the same grid is the same field.',
     ['inputs', 'configurations'], 'every admissible width, power, chirp, repetition rate and even grid', 'Tests check the width of one or two pulses; unit and normalisation errors in the other branches (average-power option, mks, dispersion terms, file round trip) go unseen.',
     [DP], [('profiles', DP + ': SechPulse, GaussianPulse, SincPulse, CWPulse, NoisePulse, FROGPulse')])
prop('C05', 'Spectral phase operations change phase only, by the documented amount',
     'Chirping a pulse, applying a spectral phase (array or function), and delaying it multiply each spectral component by a unit-modulus factor with exactly the documented phase; spectrum and energy are unchanged, opposite operations undo each other, and a delay by whole samples is a circular shift.',
     ['inputs', 'histories'], 'every field, grid, chirp coefficient list (any number of orders), phase and delay', 'Tests never apply more than one operation or check the phase of every component.',
     [PB], [('phase operations', PB + ': chirp_pulse_W, apply_phase_W, add_time_offset, dechirp')])
prop('C06', 'Copying, cropping, expanding, filtering and analysing a pulse are faithful',
     'A clone equals its source and shares nothing with it; cropping to a wavelength or time range and expanding a grid keep the retained field and place it at the right frequencies and times; rotating the spectrum, interpolating to a new centre, filtering, adding noise and computing autocorrelations and spectrogram-type quantities give the documented values and leave the source unchanged where documented.',
     ['inputs', 'histories'], 'every field, every even grid size, every admissible range', 'Tests do not exercise these operations, or only with one smooth pulse whose zero edges hide off-by-one errors.',
     [PB], [('copies', PB + ': clone_pulse, create_cloned_pulse, create_subset_pulse'), ('resizing', PB + ': expand_time_window, rotate_spectrum_to_new_center_wl, interpolate_to_new_center_wl'), ('analysis', PB + ': calculate_autocorrelation, calculate_intensity_autocorrelation')])
prop('C07', 'Fibre dispersion is the documented propagation constant on any pulse grid',
     'For fibres specified by Taylor coefficients (ps^n/m or ps^n/km), a tabulated dispersion parameter, an effective-index table, the shipped database, or a position-dependent function, the propagation constant reported on a pulse grid equals the documented series or interpolation at each absolute frequency, in the frame where value and slope vanish at the pulse centre. The result depends only on fibre, pulse grid and position: querying repeatedly, querying other pulses, or using and changing other fibres never alters it, and caller data and the database are not modified.',
     ['inputs', 'histories'], 'every coefficient list (1 to 5 orders), every table, centre wavelength, pulse grid and position, every order of queries', 'Tests use one fibre and one pulse; repeated queries, several fibres, units of the database entries and central-frequency offsets are not explored.',
     [FB, 'media/fibers/calculators.py', 'media/fibers/JSONFiberLoader.py'], [('propagation constant', FB + ': get_betas, generate_fiber, load_dispersion, set_dispersion_function'), ('tabulated dispersion', 'media/fibers/calculators.py: DTabulationToBetas')],
     [('fibre specification', 'format, units and data of one fibre', FB + ': fiberspecs')])
prop('C08', 'Fibre gain and nonlinearity reported are the ones configured',
     'A fibre reports the gain and nonlinearity it was configured with, as constants, as functions of position, or as a spectral gain scaled so that the amplified pulse carries the requested power; switching between passive and gain configurations leaves no trace of the previous one.',
     ['inputs', 'histories'], 'every gain value or profile, every requested power, repetition rate and pulse, every sequence of reconfigurations', 'No existing test uses a gain fibre.',
     [FB], [('gain', FB + ': get_gain, set_gain, generate_fiber'), ('nonlinearity', FB + ': get_gamma, set_gamma_function')])
prop('C09', 'Without nonlinearity, split-step propagation is the exact linear flow',
     'Propagating a pulse through a fibre without nonlinearity multiplies each spectral component by exp((i beta + g/2) L) exactly, where L is the fibre length, whatever number of steps, step-size history, method or FFT back end is used; positions are increasing, start at 0 and end at L, the input pulse is unchanged and the returned pulse is independent of it.',
     ['inputs', 'histories', 'configurations'], 'every field, grid, propagation constant, gain, length, number of steps; every accept/reject history of the step control; both methods and FFT back ends', 'Tests compare one simulation with stored or analytical results within percent tolerances; a missing half step or leftover step is below such tolerances or depends on the step history.',
     [SS], [('linear step', SS + ': LinearStep, CalculateExpD'), ('stepping', SS + ': propagate, integrate_over_dz')],
     [('step cache', 'dispersion exponential cached per step size and direction', SS + ': last_h, exp_D')])
prop('C10', 'One nonlinear step advances the documented generalized Schroedinger equation',
     'The nonlinear operator equals i gamma A times the instantaneous plus delayed Raman response (with self-steepening when enabled), each step is the RK4IP formula of Hult or, for the split-step method, the full linear step followed by the nonlinear phase (reversed when integrating backwards) for that operator, and with split steps and no dispersion, gain, self-steepening or Raman the intensity of every time sample is unchanged.',
     ['inputs', 'configurations'], 'every field and grid, gamma, Raman fraction and time constants, step size, all switches', 'Tests run whole simulations with tolerances; a wrong Runge-Kutta weight, Raman response or shock term changes results by less than the tolerance in the sampled regime.',
     [SS], [('nonlinear operator', SS + ': NonlinearOperator, CalculateRamanResponseFT, setup_fftw'), ('RK4IP step', SS + ': RK4IP, Advance')])
prop('C11', 'Adaptive stepping covers exactly the requested distance with accepted steps only',
     'Whatever sequence of local errors occurs, integration over a distance advances the field by accepted steps whose lengths add up to exactly that distance, a rejected step leaves the field and position unchanged, every accepted step had an estimated error of at most twice the tolerance (or could not be halved any further), and the recorded fields and positions correspond to each other.',
     ['inputs', 'histories'], 'every sequence of local error values (accept or reject), initial step sizes and distances', 'Which steps are accepted depends on the run; tests only see a few histories, none of which hits the leftovers at the end of the distance.',
     [SS], [('step control', SS + ': integrate_over_dz, CalculateLocalError')])
prop('C12', 'Coherence is the documented normalised correlation of independent noisy runs',
     'The degree of coherence is the magnitude of the mean, over all pairs of distinct runs, of conj(E_i) E_j / sqrt(|E_i|^2 |E_j|^2) at every frequency and position; every run propagates its own noisy copy of the input pulse through the given fibre with the given settings, the input pulse is unchanged, the result lies between 0 and 1 and equals 1 for identical runs, and with a fresh solver a given seed reproduces it.',
     ['inputs', 'configurations'], 'every set of complex spectra, every number of runs and positions', 'Tests do not compute coherence.',
     [SS], [('coherence', SS + ': calculate_coherence, propagate_to_gain_goal'), ('noise runs', SS + ': calculate_coherence')])
prop('C13', 'Gain-goal propagation returns a result that meets the stated goal',
     'Propagation towards a requested output power searches with single-step trial runs on the given pulse and fibre, starting from the guess, until the modelled power is the requested one within the tolerance, and returns the run with the requested number of output steps together with the scale factor used for it, whose modelled power meets the goal.',
     ['inputs'], 'every monotone response of output power to the gain setting, any requested power and repetition rate', 'No existing test uses it.',
     [SS], [('gain search', SS + ': propagate_to_gain_goal')])
prop('C14', 'The ODE stepper is a consistent eighth-order Runge-Kutta pair with dense output',
     'One step of the adaptive integrator applies a Runge-Kutta tableau that satisfies the order conditions (order 8 for the step, lower-order embedded errors vanishing to their stated order), and the dense output interpolates the step at both ends with correct slopes and the stated order in between.',
     ['inputs'], 'every right-hand side and step size (through the order conditions of the tableau the code actually applies)', 'A wrong digit in one of about 150 coefficients changes results of the sampled problems by less than their tolerance.',
     [OD + 'dopr853.py', OD + 'dopr853_constants.py'], [('stages and error', OD + 'dopr853.py: dy, error, prepare_dense, dense_out')])
prop('C15', 'The ODE driver covers exactly the requested interval under error control',
     'For every right-hand side and every history of accepted and rejected steps, the driver ends exactly at the requested endpoint without evaluating beyond it, accepts only steps whose scaled error is at most one, shrinks after rejection and bounds growth, counts good and bad steps correctly, and raises a documented error instead of looping forever.',
     ['inputs', 'histories'], 'every sequence of error estimates, start, end, initial and minimum step, maximum number of steps', 'The accept/reject history depends on the problem; tests integrate one or two smooth problems.',
     [OD + 'steppers.py', OD + 'dopr853.py', OD + 'dopr853_controller.py'], [('driver', OD + 'steppers.py: ODEint.integrate'), ('controller', OD + 'dopr853_controller.py: Controller.success')])
prop('C16', 'Saved trajectories lie on the requested output grid and on the solution',
     'With no saves requested nothing is stored and only the end point is handed back; in step mode (zero saves requested) the start and every accepted step are stored; in dense mode exactly the equally spaced positions from start to end, each once and in order of integration, with the value of the interpolated solution there, for every step history. Storage grows without losing entries, and values of another data type are refused.',
     ['inputs', 'histories'], 'every step history, number of requested points and vector length', 'Off-by-one and growth errors occur only for particular step histories.',
     [OD + 'steppers.py'], [('output', OD + 'steppers.py: Output.out, Output.save, Output.init')])
prop('C17', 'Three-wave mixing equations: correct convolutions, frequencies and conservation',
     'The right-hand side of three-wave mixing equals the documented coupled-wave equations on the grids of the three fields (idler centre at the frequency difference, convolutions and correlations aligned with the grids, fields scaled to intensity in the interaction area); for a wavelength-independent mode area (waveguide mode), any fields and either poling sign, total power flow vanishes and photon numbers change in the Manley-Rowe ratios. Overlapping grids, fields of different length or different time windows are refused, and the pulses and crystal given are not modified.',
     ['inputs', 'configurations'], 'every triple of fields and grids of one size, wavelengths, poling state and focusing', 'Tests integrate one configuration; index alignment errors of one grid point do not show with smooth pulses.',
     [TW + 'DFG_integrand.py', 'light/high_V_waveguide.py'], [('right-hand side', TW + 'DFG_integrand.py: deriv, precompute_poling'), ('convolutions', TW + 'DFG_integrand.py: conv, corr')])
prop('C18', 'Poling structure and mixing results are reported at the right place',
     'For a constant, position-dependent or linearly chirped poling period, the effective nonlinearity has the sign of the poling domain (first half of each period positive, second half negative, each period as long as the poling function at its start) at every position inside a domain; the results object returns each field and its position, spectrum, power and centre wavelength at the stored position, and stored runs read back equal what was written.',
     ['inputs', 'histories'], 'every poling period, domain list, position and stored trajectory', 'Tests use one crystal period and look at no intermediate result.',
     [TW + 'DFG_integrand.py', TW + 'multi_run_rw.py', 'media/crystals/CrystalContainer.py'], [('poling', TW + 'DFG_integrand.py: precompute_poling, poling; media/crystals/CrystalContainer.py: set_pp'), ('results', TW + 'DFG_integrand.py: dfg_results_interface; ' + TW + 'multi_run_rw.py')])
prop('C19', 'Crystal optics follow the published equations and never depend on query history',
     'Refractive indices of every built-in crystal equal the cited Sellmeier equations at the set temperature and angle; group velocity, dispersion parameter D = d(1/v_g)/dlambda, mixing angle, phase mismatch, phase-matching bandwidth and angle and poling period follow from them; each result depends only on the crystal\'s current settings and the query, never on earlier queries, other instances, or arrays the caller modifies.',
     ['inputs', 'histories'], 'every wavelength in range, temperature, angle, pulse grid and query sequence', 'Tests check a few index values; caching and instance sharing show only after particular histories.',
     ['media/crystals/CrystalContainer.py', 'media/crystals/XTAL_PPLN.py', 'media/crystals/XTAL_AgGaSe2.py', 'media/crystals/XTAL_AgGaS.py'],
     [('index', 'media/crystals/XTAL_*.py: Sellmeier'), ('interface', 'media/crystals/CrystalContainer.py')])
prop('C20', 'Beam geometry obeys Gaussian-beam relations and power-field conversion inverts',
     'For every beam, Rayleigh range, waist, spot size, curvature, Gouy phase and confocal parameter satisfy the Gaussian-beam relations in the medium, focusing to a confocal length is exact for every wavelength, and the factors converting power to field amplitude and back are mutually inverse and consistent with the beam\'s area; changing a beam\'s waist never alters another beam.',
     ['inputs', 'histories'], 'every waist, position, wavelength grid and crystal', 'Tests do not cover the beam classes beyond one waist value.',
     ['light/beam.py', 'light/high_V_waveguide.py'], [('Gaussian beam', 'light/beam.py: OneDBeam'), ('waveguide beam', 'light/high_V_waveguide.py: OneDBeam_highV_WG')])
prop('C21', 'Grating compressor dispersion matches the Treacy formulas and is phase only',
     'For every pulse, groove density, incidence angle, separation and order, the compressor\'s diffraction angle obeys the grating equation, its group delay and its dispersion coefficients of every order are those of the Treacy configuration (the derivatives of that group delay, in the units documented), and applying it to a pulse adds the integral of that group delay to the spectral phase and changes nothing else.',
     ['inputs'], 'every admissible geometry and pulse', 'One test compares second and third order of one grating within 5 %; other orders, geometries and the application to a pulse are not tested.',
     ['devices/grating_compressor.py'], [('Treacy compressor', 'devices/grating_compressor.py: TreacyCompressor')])

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in P: f.write(json.dumps({k: v for k, v in d.items() if k[0] != '_'}) + '\n')
    checks, na = [], []
    NA = json.load(open(os.path.join(HERE, 'tools', 'na.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'na.json')) else {}
    for d in P:
        i = d['id']
        if i in NA or not os.path.exists(os.path.join(HERE, 'props', i + '.py')):
            na.append({'property': i, 'reason': NA.get(i, 'no contract written yet')})
            continue
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                       'technique': 'contract-based deductive verification of the real Python source (symbolic execution to verification conditions, discharged by an algebraic normaliser and Z3), with replay on the real code',
                       'level': 'proof', 'level_note': d['_note'] or 'every path of the contracted functions, all inputs, grid size symbolic; real arithmetic for floats; numpy/scipy by axioms cross-checked on the real code; see DESIGN.md'})
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not claimed')
main()
