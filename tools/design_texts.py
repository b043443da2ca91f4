TEXT = {
'C01': dict(
 proof="""`padsignal` for 1D and 2D input, every padtype, given and default padlength, any length: the length of the result,
 the power-of-two length when none is given, the reported offsets n1 and n2, and for every position of the result which sample of
 the input it is (or zero). `p2up` returns the next power of two. Unknown padtypes and lengths below len(x) are rejected.""",
 reach="every length, every pad length (also several times the signal, odd and even differences) rather than a few",
 rt="compares with independently written index maps, 1D and 2D, both dtypes; p2up on all lengths up to a bound."),
'C02': dict(
 proof="""`phase_cwt_cpu`, `phase_stft_cpu`, the parallel and sequential kernels, `phase_cwt`, `phase_stft` with default and
 given gamma: at an arbitrary cell the value is |Im(dWx/Wx)|/2pi (or |Sfs - that|), inf exactly when |Wx| < gamma, never
 negative, never NaN; dtype follows the input. `_make_Sfs`: one frequency per row, row i at i*fs/2/(M-1).""",
 reach="all cell values, including zero, infinite ratios and values at the threshold, for all shapes",
 rt="kernels and the public functions against numpy, values around the threshold, complex64 and complex128."),
'C03': dict(
 proof="""For linear, log and two-slope log grids, both orders, parallel and sequential: `indexed_sum_onfly`, `ssqueeze_fast`,
 `ssqueeze_fast_stft`, `_ssq_stft_par` write cell (k, j) of Tx as the finite sum over rows i of the column of W(i,j)*const(i) over
 the i whose nearest bin is k; the bin the code computes is proved nearest to the instantaneous frequency among all
 bins (`nearest bin`), clamped, and mirrored when rows are flipped; points below the threshold contribute nothing; all reads and
 writes in bounds.""",
 reach="every frequency (0, inf, beyond both ends, ties), every grid size, every column",
 rt="exact bins recomputed by brute force (ties excluded by margin), kernels and public `ssqueeze`."),
'C04': dict(
 proof="""Lemma `columns` (induction over both ranges): summing over all bins a family of values distributed by an arbitrary binning
 gives the sum over the values. Instantiated at the binning of `indexed_sum_onfly`, `ssqueeze_fast`, `indexed_sum`, `ssqueeze` and
 at the whole `ssq_cwt`/`ssq_stft`: column sum of Tx = weighted sum of kept points. `locality`: two inputs
 that agree on column j give the same column j.""",
 reach="conservation for every binning and column, not to a tolerance on one signal",
 rt="column sums of the kernels and of the end-to-end transforms; locality by changing other columns."),
'C05': dict(
 proof="""`ssqueeze_fast` equals `phase_cwt_cpu` followed by `indexed_sum_onfly` at every cell (symbolically the same finite sum), for
 each grid kind and order; `ssq_cwt` and `ssq_stft` return the same Tx, frequencies, Wx, scales with or without get_w/get_dWx.""",
 reach="all inputs and all combinations of extra outputs",
 rt="both paths on random transforms and on whole signals, all combinations of get_w, get_dWx, flipud."),
'C06': dict(
 proof="""Every pair of routines (`_par` and sequential) in algos, ridge_extraction, stft_utils is executed on the same arbitrary
 input; each `prange` carries no-race obligations (different iterations touch different cells; none reads what another writes) and the
 two results are proved equal cell by cell. So every schedule of every thread count gives the sequential result.""",
 reach="quantifies over schedules; tests see one schedule per run",
 rt="compiled variants with 1..n threads and chunk sizes; ridge steps; wavelets with SSQ_PARALLEL on and off."),
'C07': dict(
 proof="""`ssqueeze`, `ssq_cwt`, `ssq_stft`: len(ssq_freqs) = rows of Tx, row k of Tx is the sum for the bin ssq_freqs[k]; flipping
 changes row k into row M-1-k and nothing else, for given, named and default frequencies.""",
 reach="the correspondence holds for every row, kind of grid and option combination",
 rt="single-bin inputs through the public functions, both orders, own frequency vectors."),
'C08': dict(
 proof="""`padsignal`, `buffer`, `stft`, `cwt`, `ssqueeze`, `ssq_cwt`, `ssq_stft`, `icwt`, `cwt` with several orders on an arbitrary batch: row b of
 the result is the closed form proved for the single signal x[b] (same contract function, applied at b).""",
 reach="all batch sizes and all rows, also rows with special values",
 rt="batch against loop for transforms, derivatives, inverses, squeezing options, higher orders, padding and framing."),
'C09': dict(
 proof="""`Wavelet.Psih` from an arbitrary state of its cache satisfying the invariant ("the stored array is the filter of the stored
 request"), and after an arbitrary earlier request: the returned filter is the wavelet at scale*frequency for this
 request (scales, N, dtype, nohalf); `cwt` vectorized, looped and with cached filters have one closed form.""",
 reach="the cache is a state machine over request histories; the contract is inductive over all histories",
 rt="random request histories; looped versus vectorized on random signals and options."),
'C10': dict(
 proof="""`cwt` (with `Wavelet.__call__`, `_halve_nyquist`): row i is ifft(fft(xp) * psi(scale_i * w)) with the halved bin for even
 length, cropped at n1 or not; derivative with the factor i*w/dt; L2 norm multiplies by sqrt(scale). For padded, unpadded,
 batched, vectorized, looped, and any real-valued wavelet function. `cwt_higher_order`: given orders as a tuple it returns one such
 transform per order or their average, with the caller's options passed on to each.""",
 reach="all signals, lengths (both parities), scales and all wavelets",
 rt="against a direct numpy FFT product for built-in and custom wavelets, higher orders, trigdiff, non-finite input."),
'C11': dict(
 proof="""`icwt` with one integral (all scale kinds, both norms, batch, mean given per input or scalar): weighted column sum with
 the weights the spacing prescribes, constants, mean exactly once; additivity and homogeneity (`linear`); two-integral inversion;
 admissibility integrands.""",
 reach="every transform, every scale vector of each kind, every mean",
 rt="direct weighted sums; round trips within a bound; two-integral against an independent double sum."),
'C12': dict(
 proof="""`buffer` (parallel or not, modulated or not, batch): every cell of every frame is the stated sample. `stft`: column k is the FFT of
 the frame times the window (placed by fftshift when modulated), rows 0..n_fft/2, derivative with diff_window * fs; `get_window`
 centres and pads the window; bad windows are rejected.""",
 reach="every hop, window length, n_fft and frame index, in particular the last ones",
 rt="frames and transforms against numpy loops; default windows; windows of every type accepted."),
'C13': dict(
 proof="""`unbuffer` is the overlap-add sum, `window_norm` the sum of shifted window powers; with both, `istft` of the frames of x
 returns x at every retained sample (weights cancel), for every win_exp, hop, N given.""",
 reach="recovery at every sample for every hop satisfying the overlap condition",
 rt="round trips for many window/hop/length combinations; uncovered samples; overlap-add against a loop."),
'C14': dict(
 proof="""`issq_cwt` and `issq_stft` without curves: constant times real column sum. With curves and half-widths: component c at time t is the sum of
 exactly the rows within the clipped band, absent points (-1) contribute nothing, the last output is the sum of what no band
 took; disallowed combinations are rejected.""",
 reach="all curves, half-widths beyond the array, ridges at the edges, overlapping times",
 rt="against explicit row masks; random curves with gaps and bands clipped at both ends."),
'C15': dict(
 proof="""`_accumulated_penalty_energy_fw` (both variants): dynamic-programming recurrence proved as loop invariant; `_bw`: the path
 returned attains the minimum; with the lemma `least cost path` (induction over time: any path costs at least the recurrence's value) the
 path is a minimizer over all paths; in `extract_ridges` energy normalization and log scale are as documented and silent
 columns are finite.""",
 reach="minimality over exponentially many paths",
 rt="Viterbi in plain numpy and complete enumeration of small problems."),
'C16': dict(
 proof="""`extract_ridges` for 1-3 ridges: frequency and energy outputs are read at the ridge's rows in the transform as it was when the
 ridge was searched; `band removed`: the next search sees zero exactly in rows [r-bw, r+bw) clipped; caller's array untouched.""",
 reach="bands at both edges, all widths",
 rt="outputs and sequential removal replayed in numpy."),
'C17': dict(
 proof="""`make_scales` for log, log-piecewise and linear: positive, strictly increasing, first and last value, constant ratio
 2**(1/nv) or step, two slopes with the coarser voices on the second; `cwt_scalebounds` presets and bounds; `process_scales` for
 names, given vectors, contradictions and rejected values.""",
 reach="every length, nv, bounds, downsampling index",
 rt="generated vectors, presets on real wavelets, short ones; `find_max_scale`, `find_downsampling_scale` themselves."),
'C18': dict(
 proof="""`infer_scaletype`, `logscale_transition_idx`, `nv_from_scales` on arbitrary uniform, geometric and two-slope geometric vectors:
 kind, index, voices; other vectors rejected.""",
 reach="all lengths, ratios and transition positions, including the first and last possible",
 rt="thousands of vectors as floats (tolerances of the code against rounding)."),
'C19': dict(
 proof="""`_compute_associated_frequencies`, `_ssq_freqrange`: ascending, end points by maprange ('maximal', 'peak', 'energy', tuple), one per
 row, spacing uniform, geometric or two-slope; given frequencies kept; stft frequencies.""",
 reach="every wavelet (centre frequency arbitrary), scale vector, sampling rate",
 rt="grids recomputed with independent formulas, end to end for built-in wavelets."),
'C20': dict(
 proof="""`_xifn`: cell k is scale*2pi*k/N for k <= N/2 and scale*2pi*(k-N)/N beyond, both parities; `afftshift`, `aifftshift`, `fftshift`,
 `ifftshift` place and undo, any axis; `Wavelet.xifn` agrees.""",
 reach="all N of both parities, all axes",
 rt="shapes 1-3D against numpy's fft.fftshift and index formulas."),
'C21': dict(
 proof="""morlet, bump, cmhat, hhhat, gmw (L1, L2, orders 0-2): formula at an arbitrary frequency, parameter and scale; real; zero (or negligible) at
 non-positive frequencies where claimed; peak value 2 at the centre frequency for gmw L1; scaling psi(scale*w).""",
 reach="all frequencies and parameters, with exact reals",
 rt="formulas in numpy incl. extreme arguments, gmw higher orders, energy and moments by quadrature."),
'C22': dict(
 proof="""Frame contracts: for cwt, ssq_cwt, ssq_stft, ssqueeze and their callees, every argument array's cells, every option object and
 every module-level setting that existed before is unchanged at exit, on normal and exceptional exits; a repeated call returns the
 same closed form.""",
 reach="all inputs (NaN, inf, denormals included) and call histories",
 rt="random histories of public calls with deep comparison of inputs and settings; failures injected."),
'C23': dict(
 proof="""`replace_at_inf/nan/value..`, `replace_under_abs`, `zero_denormals`, parallel and not, 1-3D, with and without ref: at an arbitrary
 cell the new value is the replacement iff the condition holds on the reference, else unchanged; ref unchanged.""",
 reach="every cell and value, boundary of each condition",
 rt="real, complex, strided views; values at the limits."),
'C24': dict(
 proof="""`find_closest` (lin, log, piecewise; parallel or not), `find_closest_brute`, `find_closest_smart` (any values in any order, via argsort /
 searchsorted contracts; also in log distance): index in range and no grid value nearer, for an arbitrary query.""",
 reach="every query, ties and beyond both ends",
 rt="`find_closest_smart` and the others against brute force on sorted, unsorted, huge and infinite queries."),
'C26': dict(
 proof="""`laws`: the derivative of each chirp's phase function is the angular frequency it reports, end frequencies are the bounds; `chirps`:
 the public methods return cos of that phase on the requested grid; automatic length does not alias; sinusoids,
 modulations, parallel, jumps, packed by formula; names and parameters are dispatched as given.""",
 reach="all times and parameters; laws hold as identities",
 rt="numerical differentiation of the phase and formulas in numpy; noise and polynomial chirps."),
'C27': dict(
 proof="""`FFT` wrapper methods for scipy and pyfftw back ends, threads, axes, shapes: value equals the library transform of the input along the
 axis with the right n; `history`: results already returned never share memory with what later calls write; round trips; settings validated.""",
 reach="all call histories and cached plans",
 rt="both back ends against numpy.fft, histories with retained outputs."),
'C28': dict(
 proof="""`gdefaults` on arbitrary functions/arguments: passed values (also None-like, 0, False, '') reach the function, omitted ones take the configured
 value, positional = keyword; wavelet options likewise. `parallel` given explicitly decides which routine variant
 runs (the interpreter counts parallel loops reached), and IS_PARALLEL() only when nothing was given.""",
 reach="every value, including falsy ones, for every configurable routine",
 rt="merges with random configurations; wavelets; parallel flag."),
'C29': dict(
 proof="""`_process_fs_and_t` for arbitrary uniform t: the rate; non-uniform beyond tolerance, wrong length, rate <= 0 rejected; `stft`
 frequency and derivative scale.""",
 reach="all rates, starts and lengths, any place of a non-uniform step",
 rt="whole transforms at different rates compared."),
'C30': dict(
 proof="""`phase_cwt_num` with difforder 1, 2, 4: the derivative at column j is the named periodic stencil over dt, then |Im(./W)|/2pi; the phase
 variant: absolute step of unwrapped phase over 2pi; one value per point; inf below gamma; other orders rejected.""",
 reach="every column including the four next to the ends",
 rt="stencils in numpy, exactness on exponentials, through ssq_cwt."),
}
CAUGHT = {k: 'caught' for k in ('falsy-default', 'issq-gap', 'istft-norm', 'linear-l2',
                                'num-wrap', 'psih-alias', 'ridge-window',
                                'closest-unsorted', 'inf-sign', 'energy-pad', 'long-t', 'xi-odd', 'stft-flip',
                                'denormal-seq', 'invert-inplace', 'fine-grid', 'nv-late', 'alias-N')}
TAIL = """
### C25  GPU kernels agree with the CPU code: not applicable

The kernels are CUDA C held in Python strings with textual substitution of types and macros, compiled by cupy at
run time. Neither cupy, torch nor a CUDA device or front end is installed, the substituted text exists only after cupy's
templating, and no installed deductive verifier takes CUDA C. A hand translation would be a model.

## Statements made precise, and limits

Where a property as a user would state it is broader than what the code promises, the statement checked is this:

* C02/C03: a coefficient with |Wx| == gamma counts as kept; gamma > 0.
* C03/C24: frequency grids ascending with two or more entries; single-row transforms are not supported by the code.
* C11: the accuracy of linear-scale inversion is heuristic in the code (factor pi/4 of adjusted scales): weights are verified, not accuracy.
* C13: `istft` is exact where the sum of window powers is not negligible.
* C14: overlapping bands are summed into both components by design; negative curve values other than -1 are invalid input.
* C17/C18: nv not a multiple of the downsampling factor is rounded by the code; scale presets need a signal of about 128 samples.
* C19: 'peak'/'energy' frequencies of neighbouring two-slope rows must be distinct.
* C21: the bump wavelet sampled at the smallest scale with nv=4 is all zero (resolution, not formula).
* C26: hchirp/echirp need fmin != fmax; `jumps` with tmin != 0 has an ambiguous grid and is not claimed;
  `make_signals` collapses duplicate names.
* C27: `Psih` returns the cached array itself (mutating it is the caller's breach); FFT `patience` is validated for the
  global setting only.
* C30: difftype numeric with order > 0 is not supported.
* `extract_ridges(get_params=True)` needs 1D scales; `trigdiff` on 3D padded arrays raises.

## False alarms met while building, and what was done

* Evaluations at exact ties of a nearest bin, or of values within rounding of the threshold: oracle given a margin.
* Statements that were too strong and were narrowed are the ones in the list above (each with the reason the code gives).
* Time-limited solver calls gave different answers on a loaded machine: replaced by deterministic resource limits.
"""
