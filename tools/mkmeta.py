#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['ssqueezepy/' + f for f in files],
                               mechanism=[dict(name=a, where='ssqueezepy/' + b)
                                          for a, b in mech],
                               observe_at=list(observe))))


prop('C01', 'Synchrosqueezing only moves energy within a time column',
     'Synchrosqueezing a transform redistributes each coefficient, multiplied by '
     'its documented scale weight, along the frequency axis of its own time column: '
     'every coefficient whose phase transform is finite is counted exactly once, '
     'coefficients with infinite phase transform (magnitude below gamma) contribute nothing, '
     'and nothing moves to another column. Hence column sums of the output equal the '
     'weighted column sums of the retained input, and the default inverse, which sums columns, '
     'sees every retained coefficient.',
     ['inputs', 'configurations'],
     'all transform values, all phase-transform values including infinities and zero, '
     'log / log-piecewise / linear frequency layouts, flipud on and off, scalar and per-row weights',
     'tests synchrosqueeze a handful of chirps and compare reconstruction error to a tolerance; '
     'an index slip for particular phase values, a dropped or double-counted coefficient or a wrong '
     'weight at one row hides below the tolerance',
     ['ssqueezing.py', 'algos.py'],
     [('accumulate into bins', 'algos.py:_indexed_sum_*'),
      ('weights', 'ssqueezing.py:ssqueeze'), ('argument processing', 'algos.py:_process_ssq_params')],
     ['ssqueeze(...) output Tx'])
prop('C02', 'Coefficients land on the nearest output frequency; rows match labels',
     'Each retained coefficient is added to the output row whose frequency label is nearest to its '
     'phase-transform value (nearest in log2 for log and log-piecewise labels, linearly for linear '
     'labels), values outside the range go to the first or last row, and no write ever lands outside '
     'the output. The returned frequency labels are in the order of the output rows for both values of '
     'flipud, and the output has one row per label.',
     ['inputs', 'configurations'],
     'all phase values in [0, +inf], all frequency layouts (log, log-piecewise, linear), flipud on/off',
     'tests check ridge location on a few signals; bin boundaries, out-of-range values, transitions '
     'between pieces and label order are sampled at most once',
     ['ssqueezing.py', 'algos.py'],
     [('bin index', 'algos.py:_indexed_sum_log/_log_piecewise/_lin'),
      ('bin parameters', 'algos.py:_get_params_find_closest_log'),
      ('label order', 'ssqueezing.py:ssqueeze')], ['ssqueeze(...) -> (Tx, ssq_freqs)'])
prop('C03', 'One-pass and two-step synchrosqueezing give the same result',
     'Synchrosqueezing from the transform and its derivative in one pass gives the same output as first '
     'computing the phase transform and then synchrosqueezing with it, for CWT and STFT, for every '
     'squeezing mode (sum, abs, lebesgue, custom function), frequency layout and flipud setting. '
     'Requesting the phase transform as an extra output therefore never changes the other outputs.',
     ['inputs', 'configurations'],
     'all transform and derivative values, including zeros and magnitudes at the threshold, all squeezing modes',
     'the two paths are separate compiled kernels; tests compare them on one random input for squeezing="sum" only',
     ['ssqueezing.py', 'algos.py', '_ssq_cwt.py', '_ssq_stft.py'],
     [('one pass', 'algos.py:ssqueeze_fast/_ssq_cwt_*/_ssq_stft'),
      ('two step', 'algos.py:phase_cwt_cpu/indexed_sum_onfly')], ['ssqueeze(w=None) vs ssqueeze(w=...)'])
prop('C04', 'Phase transforms compute the instantaneous frequency formula',
     'The CWT phase transform equals |Im(dW/W)|/2pi, the STFT phase transform equals '
     '|f - Im(dS/S)/2pi| with f the row frequency, and the numeric one equals |Im(D W/W)|/2pi with D the '
     'documented finite difference; each is +infinity exactly where the magnitude does not exceed gamma '
     '(the numeric one: where it is below gamma), otherwise non-negative and never NaN for positive gamma. Inputs are not modified and output has '
     'the shape of the input.',
     ['inputs'], 'all complex values and thresholds, all difference orders',
     'tests only look at ridge errors; thresholds, signs and zero magnitudes are not exercised',
     ['_ssq_cwt.py', '_ssq_stft.py', 'algos.py'],
     [('cwt phase', 'algos.py:_phase_cwt'), ('stft phase', 'algos.py:_phase_stft'),
      ('numeric', '_ssq_cwt.py:phase_cwt_num')], ['phase_cwt, phase_stft, phase_cwt_num'])
prop('C05', 'Inverse synchrosqueezing: full inverse and exact component split',
     'The full inverse is the documented constant times the real part of the column sum of the '
     'synchrosqueezed transform (CWT: 2/admissibility, STFT: 2/window centre). Component inversion sums exactly the rows within the '
     'given band of each curve at each time, treats centre -1 as absent (centres are row indices or -1), and its last output is exactly '
     'the remainder, so components with disjoint bands plus the remainder add up to the full inverse. '
     'Inputs are left unmodified.',
     ['inputs', 'configurations'],
     'all transform values, all curve centres and widths (including ones leaving the plane), K components',
     'tests invert a couple of components from fixed bands',
     ['_ssq_cwt.py', '_ssq_stft.py'],
     [('component masks', '_ssq_cwt.py:_invert_components')], ['issq_cwt, issq_stft'])
prop('C06', 'Closest-index search returns the true nearest entry',
     'For every value the closest-index routines return the position of a nearest entry of the reference '
     'vector: the generic and brute searches for any distinct vector in any order, the fast linear and log '
     'searches (serial and parallel) for uniformly spaced vectors in linear or log space and log-piecewise ones. '
     'Values outside the range map to the first or last entry, and indexed summation adds each entry to exactly '
     'the indicated row of its column.',
     ['inputs', 'configurations'],
     'all query values and all reference vectors within the stated families',
     'tests compare variants on a few random arrays; boundary and out-of-range queries are rare in them',
     ['algos.py'], [('search', 'algos.py:find_closest*'), ('indexed sum', 'algos.py:indexed_sum')],
     ['find_closest(...)'])
prop('C07', 'Batched input equals independent processing of each row',
     'Processing a batch of signals gives, for each one, exactly what processing that signal alone gives, for '
     'padding, CWT, STFT, the synchrosqueezing step, SSQ-CWT and SSQ-STFT, in every squeezing mode. No value '
     'from one batch element affects another.',
     ['inputs', 'configurations'], 'all signal values, batch sizes 1-3, all squeezing modes',
     'tests compare batched and single runs for one random batch with default squeezing',
     ['_cwt.py', '_stft.py', 'ssqueezing.py', 'utils/stft_utils.py', 'utils/common.py'],
     [('3D ssqueeze', 'ssqueezing.py:ssqueeze'), ('batched cwt', '_cwt.py:cwt'),
      ('batched buffer', 'utils/stft_utils.py:buffer')], ['cwt/stft/ssqueeze outputs'])
prop('C08', 'Parallel CPU kernels equal serial ones and are race-free',
     'Every multi-threaded routine gives the same result as its single-threaded counterpart, whatever the '
     'interleaving of its parallel iterations: no two parallel iterations touch the same output location with '
     'at least one of them writing. This covers synchrosqueezing, phase transforms, closest-index search, indexed summation, '
     'framing and replacement routines, and the ridge energy-search kernel.',
     ['inputs', 'schedules'], 'all inputs within shape bounds and all schedules of the parallel loops',
     'races show only under particular timings; tests run one schedule and small sizes',
     ['algos.py', 'utils/stft_utils.py', 'ridge_extraction.py'],
     [('parallel kernels', 'algos.py:*_par')], ['outputs of parallel=True/False'])
prop('C09', 'GPU kernels compute what the CPU kernels compute',
     'For every input, each GPU kernel, launched with the grid, dtype and arguments the library passes, '
     'computes the same result as the CPU routine of the same name, every element is covered exactly once, '
     'and no access leaves its arrays; the transforms (cwt, stft, ssq_cwt, ssq_stft) run on the device return what they return on the CPU, as tensors or as arrays as requested.',
     ['inputs', 'configurations'], 'all input values for small shapes, both dtypes, all squeezing layouts and flipud',
     'GPU tests need a CUDA device and are skipped in ordinary runs',
     ['algos.py', 'utils/gpu_utils.py', 'ssqueezing.py'],
     [('kernel sources', 'algos.py:_kernel_codes'), ('launch', 'utils/gpu_utils.py')],
     ['GPU outputs of ssqueeze/phase transforms/replace_under_abs'])
prop('C10', 'Signal padding produces the documented extension',
     'Padding returns a signal of exactly the requested length (by default the next power of two at or above '
     'the input length), containing the input unchanged at the reported offset with left and right pads that '
     'differ by at most one sample, surrounded by the samples of the named infinite extension (zero, reflect, '
     'symmetric, replicate, wrap). The input is not modified.',
     ['inputs', 'configurations'], 'all sample values, lengths 1..9 (17), all pad types and legal pad lengths, 1D/2D',
     'tests pad a few fixed lengths; odd sizes, length 1, and pads as long as the signal are not covered',
     ['utils/common.py'], [('padding', 'utils/common.py:padsignal'), ('target length', 'utils/common.py:p2up')],
     ['padsignal, p2up'])
prop('C11', 'STFT framing and overlap-add',
     'Framing yields exactly the segments x[h*hop : h*hop+length] for every hop (circularly shifted to zero phase '
     'when modulated), serial and parallel alike, for 1D and batched input. Overlap-add accumulates each windowed frame at '
     'its own offset and window_norm accumulates the matching window powers, so no sample is skipped or counted twice.',
     ['inputs', 'configurations'], 'all sample values, all segment lengths, overlaps and lengths in the bound',
     'a handful of lengths and hops are tested', ['utils/stft_utils.py'],
     [('framing', 'utils/stft_utils.py:buffer'), ('overlap-add', 'utils/stft_utils.py:unbuffer, window_norm')],
     ['buffer, unbuffer, window_norm'])
prop('C12', 'STFT equals its definition',
     'Every STFT coefficient equals the discrete Fourier sum of the padded signal segment times the window (phase '
     'referenced to the segment centre when modulated, to its start otherwise), hop h being centred on sample h*hop. '
     'The derivative output uses the spectral derivative of the window scaled by the sampling rate, windows shorter than n_fft '
     'are centred by zero padding, and row frequencies run linearly from 0 to fs/2.',
     ['inputs', 'configurations'], 'all sample and window values, signal lengths, n_fft (odd and even), win_len, hop, fs in the bound',
     'tests check inversion and one comparison, which cannot see compensating errors, odd n_fft or fs scaling of the derivative',
     ['_stft.py', 'utils/stft_utils.py', '_ssq_stft.py'], [('stft', '_stft.py:stft'), ('window', '_stft.py:get_window')],
     ['stft(x, derivative=True)'])
prop('C13', 'ISTFT exactly inverts STFT',
     'For any signal and any window with no zero in the overlap-added window norm, istft(stft(x)) returns x for every supported '
     'padding, window exponent, hop, n_fft, win_len and modulated setting, with N given or implied; the returned length '
     'equals N. Samples never covered by the window are not divided by zero.',
     ['inputs', 'configurations'], 'all signals within bound, n_fft from 1 up, hops 1..n_fft, win_exp 0..2',
     'tests invert a small grid of parameters on one random signal', ['_stft.py', 'utils/stft_utils.py'],
     [('inverse', '_stft.py:istft'), ('window norm', 'utils/stft_utils.py:window_norm')], ['istft(stft(x))'])
prop('C14', 'CWT equals its definition, whatever the execution strategy',
     'Every CWT row is the inverse DFT of the padded signal spectrum times the sampled wavelet at that scale '
     '(times sqrt(scale) for L2 norm), unpadded to the original time span unless rpadded; the derivative is the same with '
     'the spectrum multiplied by i*xi*fs. Vectorized and looped execution, cached and recomputed wavelets, and array or string '
     'scales give the same result, the transform is linear in the signal, and averaged higher orders are the mean of the individual orders.',
     ['inputs', 'configurations'], 'all signal values, lengths and scale vectors in the bound, all wavelet families, both norms',
     'tests compare against no independent definition; only a few strategies are compared on one random signal',
     ['_cwt.py', 'utils/cwt_utils.py'], [('cwt', '_cwt.py:cwt'), ('trigdiff', '_cwt.py/utils')], ['cwt(x, ...)'])
prop('C15', 'Inverse CWT is the documented weighted sum over scales',
     'The one-integral inverse is the real part of the sum over scales, weighted by the scale step of each '
     '(log, log-piecewise or linear) scale layout and normalisation and divided by the admissibility constant, plus the signal mean exactly once; '
     'it is linear in the transform and log-piecewise inversion equals the sum over its pieces. The input is not modified.',
     ['inputs', 'configurations'], 'all transform values, scale layouts and normalisations in the bound',
     'tests look at reconstruction error at tolerance levels that hide a mis-weighted row or doubled mean',
     ['_cwt.py'], [('icwt', '_cwt.py:icwt')], ['icwt(Wx, ...)'])
prop('C16', 'Scales and synchrosqueezing frequencies are well-formed',
     'Generated scales are positive, strictly increasing and follow the requested layout exactly (2**(k/nv), linear, or piecewise with the documented '
     'downsampling), are recognised again by scale-type inference together with their nv, and generated synchrosqueezing frequencies '
     'are strictly increasing, have one entry per scale, span exactly the requested range and follow the requested layout.',
     ['inputs', 'configurations'], 'all range endpoints, nv and lengths in the bound',
     'tests generate scales for a few lengths and wavelets', ['utils/cwt_utils.py', 'ssqueezing.py'],
     [('scales', 'utils/cwt_utils.py:make_scales, process_scales, infer_scaletype'),
      ('frequencies', 'ssqueezing.py:_compute_associated_frequencies')], ['make_scales, process_scales, infer_scaletype, ssq_freqs'])
prop('C17', 'Wavelet sampling and caching never depend on history',
     'The sampled frequency-domain wavelet is its defining function evaluated at scale times the angular DFT frequencies, zero at negative frequencies '
     'where documented, with the Nyquist bin halved when requested. Repeated or interleaved requests for other scales, lengths or options on the same '
     'object always return what a fresh object returns.',
     ['inputs', 'histories'], 'all scales in the bound, all sequences of two or three requests with differing arguments',
     'tests call each wavelet with one or two argument sets', ['wavelets.py', '_gmw.py'],
     [('sampling and cache', 'wavelets.py:Wavelet.Psih')], ['Wavelet.Psih, Wavelet(...)'])
prop('C18', 'Calls leave inputs and global state alone and are repeatable',
     'No transform or inverse modifies the arrays or option containers passed to it (unless documented as in-place), and calling it again with the same arguments '
     'gives the same result whatever calls came in between.',
     ['inputs', 'histories'], 'all input values and call sequences of length 2-3 over the public transforms',
     'tests never compare inputs before and after or repeat calls', ['_cwt.py', '_stft.py', '_ssq_cwt.py', '_ssq_stft.py', 'wavelets.py', '_gmw.py'],
     [('working copies', '_cwt.py:cwt'), ('preserve_transform', '_ssq_cwt.py:ssq_cwt')], ['caller arrays, repeated calls'])
prop('C19', 'Sampling rate and time vector are interpreted consistently',
     'Giving fs, or a uniform time vector with the same spacing, yields the same sampling step, and physical outputs scale exactly: derivatives, phase transforms and '
     'synchrosqueezing frequencies scale with fs while transform values do not depend on it. Non-uniform, mis-sized or non-positive sampling arguments are rejected.',
     ['inputs', 'configurations'], 'all positive rates, spacings and offsets in the bound', 'tests use fs of one or two values',
     ['utils/common.py', '_cwt.py', '_stft.py', 'ssqueezing.py'], [('fs/t', 'utils/common.py:_process_fs_and_t')], ['_process_fs_and_t, outputs vs fs'])
prop('C20', 'Ridge extraction returns in-range, optimal ridges',
     'Extracted ridge indices always lie inside the frequency axis, the reported ridge frequencies and maximal energies are those at the '
     'indices, the ridge starts/ends and transitions follow the minimum of the documented jump-penalised energy, and removing a ridge clears only the band around it. '
     'The input transform is not modified.',
     ['inputs', 'configurations'], 'all transform energies, penalties and bandwidths in the bound', 'tests track ridges of a few signals visually or by tolerance',
     ['ridge_extraction.py'], [('penalised path', 'ridge_extraction.py:extract_ridges')], ['extract_ridges'])
prop('C21', 'FFT wrappers equal the DFT',
     'The fft, ifft, rfft, irfft, fftshift and ifftshift wrappers return the corresponding discrete transform for any length and axis, and the result of a call never depends on, or is '
     'changed by, earlier or later calls with other shapes, directions or options.',
     ['inputs', 'histories', 'configurations'], 'all values, lengths and axes in the bound, sequences of calls', 'tests exercise a couple of shapes in one order',
     ['utils/fft_utils.py'], [('dispatch and plan cache', 'utils/fft_utils.py:FFT')], ['fft, ifft, rfft, irfft'])
prop('C22', 'Replacement and clean-up helpers touch exactly the matching entries',
     'The replace helpers overwrite exactly the entries whose reference entry is infinite, NaN, equal to the value, or below the threshold in magnitude, leave all others '
     'untouched, and preserve shape for 1D-3D inputs; denormal clearing zeroes exactly the entries of magnitude below its threshold.',
     ['inputs'], 'all values including infinities and NaN, all supported shapes in the bound', 'tests check a handful of entries',
     ['algos.py'], [('replacers', 'algos.py:replace_*')], ['replace_at_inf, replace_at_nan, ...'])
prop('C23', 'Configured defaults apply exactly to omitted arguments',
     'An explicitly passed argument always wins over the configured default, an omitted one gets the configured default for that function, and environment overrides for parallelism and '
     'GPU take effect exactly as set at the time of the call.',
     ['configurations', 'histories'], 'all combinations of passed/omitted arguments and override settings', 'tests use the shipped configuration only',
     ['configs.py', 'configs.ini'], [('defaults', 'configs.py:GDefaults'), ('overrides', 'configs.py:IS_PARALLEL, USE_GPU')], ['gdefaults, IS_PARALLEL, USE_GPU'])
prop('C24', 'Generalized Morse wavelet formulas agree with their definitions',
     'GMW samples equal the defining expression of (gamma, beta, order, norm) with peak value 2 (L1) or unit energy normalisation (L2), are zero for non-positive frequency, and the closed-form '
     'peak frequency, moments, cumulants and Laguerre/binomial helpers satisfy their defining identities.',
     ['inputs'], 'all frequencies, gamma, beta in the bound, orders 0..3', 'tests compare plots or a few numbers', ['_gmw.py', 'algos.py'],
     [('gmw', '_gmw.py')], ['gmw, morsefreq, morseproperties, nCk'])
prop('C25', 'Test signals, figures and stored FFT plans',
     'Test-signal generators, plotting helpers and persisted FFT plans behave as documented and do not influence numerical results.',
     ['inputs', 'configurations'], 'all generator parameters and plot options', 'tests only smoke-run them',
     ['_test_signals.py', 'visuals.py', 'utils/fft_utils.py'], [('generators', '_test_signals.py')], ['TestSignals, visuals'])
prop('C26', 'Quadrature-based wavelet constants converge to their integrals',
     'Admissibility coefficients, center frequencies and time/frequency widths computed by quadrature match their defining integrals for every wavelet parameter choice.',
     ['inputs'], 'all wavelet parameters', 'tests evaluate a few wavelets', ['utils/common.py', 'utils/cwt_utils.py', 'wavelets.py', 'experimental.py'],
     [('quadrature', 'utils/cwt_utils.py:adm_ssq, adm_cwt')], ['adm_ssq, center_frequency, time_resolution'])

NA = {
 'C25': 'matplotlib rendering, audio-like signal generators built from transcendental closed forms and pyFFTW wisdom files are '
        'outside what the SMT encoding can decide (no oracle beyond the same formula; foreign C library state)',
 'C26': 'the property compares adaptive scipy quadrature of transcendental integrands with real integrals; neither scipy.integrate '
        'internals nor exp/log integrals are encodable in a decidable SMT theory at useful precision',
}
LEVEL_NOTE = ('SMT (z3) decides, for every value within the stated shape/size bounds, assertions over a symbolic execution of the current '
              '/repo source (AST-instrumented at import). Arithmetic is exact reals with tolerance, rounding ties excluded by a '
              'margin; trusted: the numpy model (cross-validated against the real build on each run), z3, numba = Python semantics.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
            checks.append(dict(
                property=i, quick_cmd='python3-vt symx/check.py %s' % i,
                thorough_cmd='python3-vt symx/check.py %s --tier thorough' % i,
                technique='symbolic execution of the Python source + SMT (z3)',
                level='model_checking', level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=i, reason=NA.get(
                i, 'no check built yet for this property')))
    m = dict(version=1, setup_cmd='python3-vt -m compileall -q symx harness',
             checks=checks, not_applicable=na,
             notes='No hooks in /repo: the source is instrumented when loaded.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks;', len(na), 'not applicable')


main()
