"""What each property's proof takes from elsewhere without discharging it there: callees
replaced by a contract (where that contract is discharged, if anywhere), preconditions on the
inputs, and mathematical facts assumed.  Reported in evidence/<id>.json and in DESIGN.md."""

_FFT = 'scipy.fft.*: opaque functionals of the whole line along the axis; ifft(fft(x))=x, irfft(rfft(x))=x'
_NOLA = '_check_NOLA is a no-op (it only warns)'
_WAVE = ('the wavelet is an arbitrary real-valued function of scale*frequency (uninterpreted); the '
         'path through scipy (patience 0) is the one executed, M, N, B >= 2')
_SSQ = ('ssqueezing kernels, phase transforms, process_scales, infer_scaletype and the frequency '
        'vector are replaced by contracts: kernels discharged in C03/C06, phase in C02/C30, scales in '
        'C17, type in C18, frequencies in C19')
_SORT = 'frequency grids are ascending, with two or more entries, and finite'

ASSUMPTIONS = {
    'C01': ['2**round-up of log2 uses: 2**log2(x)=x, 2**ceil(y) is in [2**y, 2*2**y)'],
    'C02': ['gamma > 0 or the documented default', 'ties |Wx| == gamma follow the code (kept)'],
    'C03': [_SORT, 'gamma > 0', 'logscale_transition_idx by contract (discharged in C18)'],
    'C04': ['lemma `columns` (exchange of two finite sums over an arbitrary binning) is proved by '
            'induction inside the spec and instantiated', _SSQ, _SORT],
    'C05': [_SSQ, _SORT],
    'C06': ['numba prange iterations are unordered, atomic per memory cell; a reduction variable does '
            'not occur; no-race obligations are generated for every prange'],
    'C07': [_SSQ],
    'C08': ['single-signal closed forms come from C01, C07, C10, C12', _FFT, _WAVE],
    'C09': [_WAVE, 'the state of the cache is arbitrary subject to the class invariant, which __init__ '
            'establishes and every request keeps'],
    'C10': [_FFT, _WAVE, 'padsignal by contract (C01), process_scales by contract (C17)'],
    'C11': ['process_scales (C17), logscale_transition_idx (C18), p2up and padsignal (C01), '
            'integrate_analytic (the quadrature itself) by contract',
            'ln 2 is identified with its double; neighbouring scales distinct'],
    'C12': [_FFT, _NOLA, 'padsignal by contract (C01); buffer by contract (discharged here)',
            'window samples are 0 or larger than 1e-200 in magnitude; hop <= n_fft'],
    'C13': [_FFT, _NOLA, 'padsignal by contract (C01); buffer (C12), unbuffer and window_norm '
            '(discharged here) by contract in the round trip',
            'window norm > 1e-200 at every retained sample'],
    'C14': ['adm_ssq by contract (its integrand is verified in C11); wavelet constructor by contract',
            'up to three components; curves hold a row index or -1'],
    'C15': ['one, two or three ridges; two or more rows; scales positive and distinct',
            'the forward and backward steps replaced by their contracts (discharged here) in '
            'extract_ridges'],
    'C16': ['as C15'],
    'C17': ['log2(hi/lo)=log2 hi-log2 lo, 2**log2 x=x', 'find_downsampling_scale (an index or None), '
            'find_min_scale, find_max_scale, p2up and infer_scaletype by contract in their callers; '
            'find_max_scale, find_max_scale_alt and find_downsampling_scale themselves are only '
            'evaluated at run time'],
    'C18': ['geometric vectors are exact reals 2**(affine); a kind differs from another by more than '
            'the tolerances the code uses', 'two-slope inference takes the transition index and the '
            'per-element voices from their contracts (discharged here)'],
    'C19': ['centre frequencies, transition index and scales by contract; 0 < lo < hi, and '
            'lo < mid < hi on two-slope grids', _SSQ],
    'C20': ['array indices are mathematical integers'],
    'C21': ['log, exp, gamma, powers: identities ln(ab)=ln a+ln b, gammaln(x+1)=gammaln(x)+ln x, '
            'ln y <= y-1, wc**gamma=beta/gamma; morlet normalizing constants positive',
            'gmw orders above 2 are only evaluated at run time'],
    'C22': [_SSQ, _WAVE, 'failures inside the per-scale loop are only evaluated at run time'],
    'C23': ['arrays are of 1, 2 or 3 dimensions'],
    'C24': [_SORT, 'piecewise grids: the transition index is the first element of the second slope '
            '(C18)',
            'numpy argsort: a permutation which sorts; searchsorted: the place between two neighbours of a '
            'sorted line (that it is sorted is an obligation)'],
    'C26': ['a**b = exp(b ln a); rules of differentiation as written in specs/C26.py; linspace is '
            'the affine map it documents; mean of a uniform grid (Gauss sum)',
            'sin^2+cos^2=1, sin and cos odd / even; frequencies of echirp are written exp(u)',
            'noise (snr) is only evaluated at run time; phase functions by contract in their callers '
            '(discharged in `laws`)'],
    'C27': [_FFT, 'pyfftw plans: their output array is reused by every later call of the same plan, '
            'inverse ones normalised; wisdom files are not read or written',
            'lengths >= 2; irfft n in {2(m-1), 2(m-1)+1}'],
    'C28': ['the configuration file holds any values for the keys listed in configs.py'],
    'C29': ['N >= 3 samples', _FFT, _NOLA, 'window, padding and framing by contract (C01, C12)'],
    'C30': ['np.unwrap: differs from its argument by whole turns so that no step exceeds half a turn'],
}
