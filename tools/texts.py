ALG = 'real-arithmetic semantics; rounding, and coefficients exactly on a bin edge or threshold, are outside the proof'

prop('C01', 'Padding: right length, original signal in the middle, edges as documented',
     'Padding a signal returns at least the requested length (a power of two when none is given), contains the input unchanged at the reported offset, and fills both sides with the values of the chosen scheme (zeros, mirror, periodic, edge value, symmetric). Batched input is padded row by row.',
     ['inputs', 'configurations'], 'every signal length, padded length, padding scheme and batch size',
     'tests pad a handful of lengths; off-by-ones appear only for particular parities and length ratios',
     'utils/common.py utils/backend.py', [('index arithmetic of each scheme', 'utils/common.py padsignal'), ('length and split', 'utils/common.py p2up')])

prop('C02', 'Phase transform: formula, threshold and sign at every point',
     'The phase transform of a wavelet transform equals |Im(dW/W)|/2pi at every point whose coefficient is at or above the threshold and is infinite at every other point; for the short-time transform it is the absolute difference of row frequency and that quantity. It is never negative and never NaN, and the row frequencies run uniformly from zero to half the sampling rate.',
     ['inputs', 'configurations'], 'all coefficient and derivative values, thresholds, array sizes, precisions, sequential and parallel execution',
     'tests run a few smooth signals and compare variants with each other, never the formula on zeros, tiny values or sign changes',
     'algos.py _ssq_cwt.py _ssq_stft.py', [('elementwise kernels', 'algos.py _phase_cwt, _phase_stft and parallel twins'), ('dispatch and default threshold', '_ssq_cwt.py phase_cwt, _ssq_stft.py phase_stft')], note=ALG)

prop('C03', 'Each coefficient is reassigned to the nearest frequency bin, in bounds',
     'Synchrosqueezing adds every coefficient, times its weight, to exactly one row of its own column: the row whose bin frequency is nearest (in log distance on logarithmic bins) to the instantaneous frequency, clamped to the end rows, counted from the other end when rows run from high to low. Coefficients below the threshold go nowhere, and no access is out of bounds.',
     ['inputs', 'configurations'], 'all coefficients, instantaneous frequencies including huge and zero, linear / log / two-slope log bins, both row orders, sequential and parallel code',
     'tests compare the fast paths to each other on a few signals; a wrong bin at a clamp, transition or extreme frequency stays invisible',
     'algos.py ssqueezing.py', [('bin computation', 'algos.py _indexed_sum_*, _ssq_cwt_*, _ssq_stft'), ('parameters of the bins', 'algos.py _process_ssq_params, _get_params_find_closest_log')], note=ALG)

prop('C04', 'Synchrosqueezing conserves every column and moves nothing in time',
     'At each time the synchrosqueezed column sums to the weighted sum of the transform column over the points not removed by the threshold. A column of the result depends on that column of the transform alone.',
     ['inputs', 'configurations'], 'all transforms, bins, weights, thresholds, row orders and code paths',
     'needs every coefficient accounted for; tests only look at reconstruction error of smooth signals, where lost energy hides below tolerances',
     'algos.py ssqueezing.py _ssq_cwt.py _ssq_stft.py', [('accumulation', 'algos.py ssqueeze_fast, indexed_sum_onfly'), ('weights', 'ssqueezing.py ssqueeze')], note=ALG)

prop('C05', 'Fused and two-step synchrosqueezing give the same result',
     'Computing the phase transform first and then reassigning gives the same synchrosqueezed transform, frequencies and transform as reassigning directly from the derivative. Asking for the phase transform or derivative as extra outputs does not change the other outputs.',
     ['inputs', 'configurations'], 'all transforms and derivatives, bins, row orders, thresholds and options',
     'two separately written code paths; tests compare them on one signal',
     'algos.py ssqueezing.py _ssq_cwt.py _ssq_stft.py', [('two paths', 'ssqueezing.py ssqueeze'), ('option handling', '_ssq_cwt.py ssq_cwt, _ssq_stft.py ssq_stft')], note=ALG)

prop('C06', 'Parallel execution equals sequential execution for every thread schedule',
     'Every routine with a multithreaded variant returns the same values as its sequential variant, whatever the number of threads and their scheduling.',
     ['schedules', 'inputs'], 'all interleavings of the parallel loop iterations, all inputs',
     'a data race shows only under particular schedules; tests run one schedule on one machine',
     'algos.py utils/stft_utils.py ridge_extraction.py', [('parallel loops', 'algos.py *_par, utils/stft_utils.py _buffer_par, ridge_extraction.py _accumulate_penalty_energy_par')], note=ALG)

prop('C07', 'Result frequencies are ordered as rows, and row order is only a flip',
     'The returned frequency vector has one entry per row of the synchrosqueezed transform and names the frequency of that row. Asking for the opposite row order returns the same rows and frequencies reversed, nothing else.',
     ['inputs', 'configurations'], 'all transforms, bins, both row orders, both transforms and every option combination',
     'a mislabelled or half-flipped axis yields plausible plots; tests use the default order only',
     'ssqueezing.py _ssq_cwt.py _ssq_stft.py algos.py', [('flip inside accumulation and on output', 'ssqueezing.py ssqueeze'), ('callers', '_ssq_cwt.py ssq_cwt, _ssq_stft.py ssq_stft')])

prop('C08', 'Batched processing equals processing each signal alone',
     'Passing several signals as rows gives, row by row, what passing each signal alone gives, for the transforms, their derivatives and inverses, synchrosqueezing, padding and framing.',
     ['inputs', 'configurations'], 'all batch sizes, signals and option combinations',
     'tests check one batch with default options',
     '_cwt.py _stft.py ssqueezing.py _ssq_cwt.py _ssq_stft.py utils/common.py utils/stft_utils.py', [('per-row loops and axis arguments', '_cwt.py cwt, ssqueezing.py ssqueeze, utils/stft_utils.py buffer')])

prop('C09', 'Transform strategies (vectorized, looped, cached filters) agree',
     'Computing all scales at once, one scale at a time, or with precomputed filters gives the same wavelet transform and derivative. Filters served from a cache equal freshly computed filters after any sequence of requests with different scales, lengths and precisions.',
     ['inputs', 'histories', 'configurations'], 'all signals and scales; every sequence of earlier requests on the same wavelet',
     'stale-cache defects need a particular history of calls; tests use each wavelet once',
     '_cwt.py wavelets.py', [('strategies', '_cwt.py cwt'), ('filter cache', 'wavelets.py Wavelet.Psih')])

prop('C10', 'Wavelet transform equals filtering by the sampled wavelet at each scale',
     'Each row of the wavelet transform is the inverse Fourier transform of the padded signal\'s spectrum times the wavelet sampled at scale times frequency, cropped to the signal (or not, when asked), with the even-length half-band bin halved. The derivative is the same with an extra factor of i times angular frequency over the sampling step, and the energy norm multiplies row amplitudes by the square root of scale.',
     ['inputs', 'configurations'], 'all signals, lengths, scales, wavelets, sampling rates, paddings and norms',
     'tests check a few energy and reconstruction figures with tolerances that absorb indexing and scaling slips',
     '_cwt.py wavelets.py utils/cwt_utils.py', [('spectral product', '_cwt.py cwt'), ('frequency grid', 'utils/cwt_utils.py / wavelets.py _xifn'), ('filters', 'wavelets.py Wavelet.__call__')])

prop('C11', 'Inverse wavelet transform: weights, linearity, mean and cropping',
     'Inverting a wavelet transform sums the real parts of its rows with the weights its scale spacing prescribes (per piece on two-slope scales), multiplies by the constants of the formula and adds the given mean exactly once. It is linear in the transform and works row by row on batches.',
     ['inputs', 'configurations'], 'all transforms, scale kinds, norms, batches and options',
     'tests only compare to the signal within several percent',
     '_cwt.py', [('one-integral inverse', '_cwt.py _icwt_1int, icwt'), ('normalization per scale kind', '_cwt.py _process_args_icwt / _icwt_norm')])

prop('C12', 'Short-time transform frames every hop with the centred window',
     'Column k of the short-time transform is the Fourier transform of the segment starting k hops into the padded signal times the window placed as the phase convention requires, rows running from zero to half the sampling rate. The derivative output uses the window\'s derivative times the sampling rate, and segments are exact copies of the signal.',
     ['inputs', 'configurations'], 'all signals, segment lengths, hops, windows, sampling rates and both phase conventions',
     'tests use even sizes and hop 1; parity and hop combinations are not covered',
     '_stft.py utils/stft_utils.py utils/fft_utils.py', [('framing', 'utils/stft_utils.py buffer'), ('transform', '_stft.py stft'), ('window and its derivative', 'utils/stft_utils.py get_window, window_norm')])

prop('C13', 'Inverse short-time transform recovers the signal',
     'Inverting the short-time transform with the same window and hop returns the original signal of the requested length whenever the shifted windows overlap without gaps.',
     ['inputs', 'configurations'], 'all signals, segment lengths, hops, windows and both phase conventions',
     'tests sample a few sizes; edges and non-dividing hops decide',
     '_stft.py utils/stft_utils.py', [('overlap-add', '_stft.py istft, utils/stft_utils.py unbuffer'), ('normalization', 'utils/stft_utils.py window_norm')])

prop('C14', 'Inverse synchrosqueezing: full sum, and exactly the requested band around ridges',
     'Inverting a synchrosqueezed transform returns the constant of the formula times the real part of the column sums; given ridge rows and half-widths it returns one component per ridge summing exactly the rows of that band (clipped to the array), plus the remainder. Points marked absent contribute to no component, and where bands do not overlap, components and remainder add up to the full inverse.',
     ['inputs', 'configurations'], 'all transforms, ridge positions including at the edges, widths and transform lengths',
     'tests invert one well-separated example; edge-touching, overlapping and negative bands are not covered',
     'ssqueezing.py _ssq_cwt.py _ssq_stft.py', [('bands', '_ssq_cwt.py _invert_components, _process_component_inversion_args'), ('constants', '_ssq_cwt.py issq_cwt, _ssq_stft.py issq_stft')])

prop('C15', 'Ridge path minimizes energy plus jump penalty',
     'The extracted ridge is a path of valid rows, one per time step, whose total cost (negative log of the column-normalized energy plus penalty times squared jumps in log scale, or in frequency for the short-time transform) is the least of all paths. Out-of-range rows never occur, and silent time steps do not disturb the rest.',
     ['inputs', 'configurations', 'schedules'], 'all transforms, scales, penalties, sequential and parallel code',
     'tests check that ridges of clean tones are roughly right',
     'ridge_extraction.py', [('forward accumulation', 'ridge_extraction.py _accumulate_penalty_energy*'), ('backward trace', 'ridge_extraction.py _frequency_ridge')])

prop('C16', 'Ridge outputs: frequencies and energies read at the ridge, then removed',
     'For each extracted ridge the reported frequency and energy are those at the ridge\'s own row at each time, and before the next ridge is searched exactly the band around the current ridge (`bw` rows below it up to, and excluding, `bw` rows above it) is zeroed, clipped to the array. The caller\'s transform is not modified.',
     ['inputs', 'configurations'], 'all transforms, numbers of ridges, band widths, ridges touching the edges',
     'tests use isolated mid-range ridges',
     'ridge_extraction.py', [('band removal and outputs', 'ridge_extraction.py extract_ridges')])

prop('C17', 'Scale vectors are increasing, within range, and of the requested kind',
     'Generated scales are positive and strictly increasing, have the spacing asked for (uniform, geometric with the requested voices per octave, or two-slope geometric), and scales passed by the user are used as given or rejected.',
     ['inputs', 'configurations'], 'all lengths, voices per octave, wavelets, presets and kinds',
     'tests build a few vectors and inspect none of them exhaustively',
     'utils/cwt_utils.py', [('generation', 'utils/cwt_utils.py make_scales, process_scales, logscale_transition_idx')])

prop('C18', 'Spacing detection: kind, transition index and voices per octave are right',
     'For any uniform, geometric or two-slope geometric vector the detected kind is that kind, the detected transition is the first element of the second slope, and the detected voices per octave is the one the vector was built with.',
     ['inputs'], 'all lengths, starting values, steps, slopes and transition positions',
     'tests check vectors the package itself generated',
     'utils/cwt_utils.py', [('detection', 'utils/cwt_utils.py infer_scaletype, logscale_transition_idx, nv_from_scales')])

prop('C19', 'Synchrosqueezed frequencies span the requested range on the requested grid',
     'The frequency vector of a synchrosqueezed transform is ascending, starts and ends at the bounds the chosen range rule or user gives, has one entry per output row, and is spaced uniformly, geometrically or in two slopes as asked.',
     ['inputs', 'configurations'], 'all lengths, sampling rates, scale vectors, range rules and spacings',
     'tests only use the default grid',
     'ssqueezing.py utils/cwt_utils.py', [('grid', 'ssqueezing.py _compute_associated_frequencies, _exp_fm')])

prop('C20', 'Frequency grid and FFT shifts are the exact DFT conventions',
     'The sampled frequency grid times scale is scale times 2*pi*k/N with k running from zero through half the length and then the negative frequencies, for every parity. The centring shift and its inverse undo each other on every axis, place sample zero where the convention says, and never disagree with each other by one on odd lengths.',
     ['inputs'], 'all lengths (odd and even), scales, axes and dimensions',
     'off-by-one slips appear only for one parity; tests use even lengths',
     'wavelets.py utils/common.py utils/fft_utils.py utils/cwt_utils.py', [('grid', 'wavelets.py _xifn, _xi'), ('shifts', 'wavelets.py _afftshift, _aifftshift; utils')])

prop('C21', 'Wavelets are analytic, zero-mean where claimed, and match their formulas',
     'Each built-in wavelet returns at every frequency the value of its published formula, is real-valued there, vanishes (or is negligible) at non-positive frequencies, and scales its input exactly as scale times frequency. Peak normalization gives the peak value two at the wavelet\'s centre frequency for the generalized Morse family.',
     ['inputs', 'configurations'], 'all frequencies, scales and admissible parameters',
     'tests plot and integrate a few parameter choices',
     'wavelets.py _gmw.py', [('formulas', 'wavelets.py morlet, bump, cmhat, hhhat; _gmw.py gmw and norms')])

prop('C22', 'Calls do not modify inputs, settings or later calls',
     'No public routine modifies the arrays, option dictionaries or lists given to it (the replacement helpers, which work in place, apart). A call leaves no trace that changes what a later call with the same arguments returns, including after a call that failed.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of calls, failing calls included, and all inputs',
     'a leak needs a particular second call; tests run each call in isolation',
     '_cwt.py _stft.py _ssq_cwt.py _ssq_stft.py ssqueezing.py ridge_extraction.py wavelets.py _gmw.py utils/common.py utils/fft_utils.py', [('in-place buffers and saved settings', '_cwt.py cwt, wavelets.py Wavelet, utils/fft_utils.py FFT')])

prop('C23', 'Conditional replacement changes exactly the selected entries',
     'Each replacement helper overwrites, in the given array, exactly the entries its condition selects (infinite, NaN, equal to a value, small in magnitude, in the denormal range) with the replacement and leaves every other entry and the reference array untouched.',
     ['inputs', 'configurations'], 'all arrays of one to three dimensions, values including infinities and NaN, precisions and memory layouts',
     'tests exercise one array',
     'algos.py', [('masks', 'algos.py _replace_*, _zero_denormals')], note=ALG)

prop('C24', 'Closest-value search returns the nearest grid index, in range',
     'For every query and every ascending uniform, geometric or two-slope geometric grid the returned index is in range and no grid value is nearer (in log distance on geometric grids). The exhaustive and the sorting-based search return a nearest value for arbitrary vectors.',
     ['inputs', 'configurations'], 'all queries including zero, huge and infinite ones, all grids, sequential and parallel',
     'tests sample random queries inside the grid',
     'algos.py', [('search variants', 'algos.py find_closest, find_closest_log, find_closest_lin, find_closest_brute, find_closest_smart')], note=ALG)

prop('C25', 'GPU kernels agree with the CPU code',
     'Every GPU kernel returns what the CPU routine returns on the same input, up to floating-point rounding.',
     ['inputs', 'configurations'], 'all inputs and both precisions',
     'needs a CUDA device, which continuous integration does not have',
     'algos.py utils/gpu_utils.py', [('kernels', 'algos.py *_gpu and CUDA source strings')],
     na='needs cupy, torch and a CUDA device, none of which is present; the kernels are CUDA C inside Python strings with textual macro substitution that none of the installed deductive verifiers accepts')

prop('C26', 'Test signals follow their stated frequency laws',
     'Each generated chirp has the requested length and time grid and equals the cosine of the integral of the instantaneous frequency it reports, which runs between the requested bounds; a chirp whose length is chosen automatically does not alias. Sinusoids, amplitude modulations, jumps, packed and parallel chirps equal their stated formulas with the requested parameters.',
     ['inputs', 'configurations'], 'all lengths, time ranges, frequency bounds and sweep kinds',
     'tests only check that the signals can be built',
     '_test_signals.py', [('laws', '_test_signals.py TestSignals.lchirp, echirp, hchirp, ...')])

prop('C27', 'Fourier-transform wrapper equals the discrete Fourier transform',
     'The wrapper\'s forward, inverse, real-input and real-output transforms equal the mathematical transforms along the requested axis for every shape and backend setting, and undo each other. Results handed out earlier never change because of later calls.',
     ['inputs', 'histories', 'configurations'], 'all shapes, axes, precisions, settings and sequences of calls',
     'plan and buffer reuse defects need two calls with particular shapes; tests use one',
     'utils/fft_utils.py', [('plan cache', 'utils/fft_utils.py FFT')])

prop('C28', 'Configured defaults apply exactly where the caller gave nothing',
     'An argument the caller passes is used as passed; only arguments left at their default take the configured value, for every configurable routine, and positional and keyword passing are equivalent.',
     ['configurations', 'inputs'], 'all subsets of arguments given, in either style',
     'tests use defaults or a single override',
     'configs.py configs.ini wavelets.py _gmw.py', [('decorator', 'configs.py gdefaults')])

prop('C29', 'Sampling rate and time vector are equivalent and checked',
     'Giving a uniformly spaced time vector is equivalent to giving its sampling rate. Returned frequencies and time derivatives are proportional to the rate and the transforms do not depend on it (the synchrosqueezed short-time transform is proportional to its bin width). Time vectors that are not uniform or have another length than the signal, and non-positive rates, are rejected.',
     ['inputs', 'configurations'], 'all sampling rates, time offsets and lengths',
     'tests use unit rate almost everywhere',
     'utils/cwt_utils.py _cwt.py _ssq_cwt.py _stft.py _ssq_stft.py', [('processing', 'utils/cwt_utils.py _process_fs_and_t')])

prop('C30', 'Numeric differentiation variants use the stated stencils',
     'The finite-difference phase transform divides the named stencil of the transform (first-order forward, second-order forward, fourth-order central; periodic at the ends) by the sampling step and applies |Im(./W)|/2pi; the phase-difference variant returns the absolute step of the unwrapped phase over 2*pi. Both return one value per transform point and are infinite below the threshold.',
     ['inputs', 'configurations'], 'all transforms, steps, orders and thresholds',
     'tests compare to the analytic variant within loose error',
     '_ssq_cwt.py', [('stencils', '_ssq_cwt.py phase_cwt_num, phase_cwt')])
