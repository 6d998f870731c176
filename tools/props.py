#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The table below is the single place where properties are stated."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), note=None, na=None, obs=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over), note=note, na=na, obs=list(obs), state=list(state)))


LEN = 'Tests use a handful of lengths and fixed vectors; a wrong coefficient, index or twiddle at one length, position or precision goes unseen.'

prop('C01', 'Forward complex FFT equals the DFT definition',
     'For every length n >= 1, power of two or not, and every finite complex input, the in-place forward transform returns X[k] = sum over t of x[t]*exp(-2*pi*i*k*t/n), in f32 and in f64, up to rounding error that grows only mildly with n. The sample order of the result is natural (bin 0 first).',
     'every complex input vector of each length and both precisions', LEN, ['src/fft.rs', 'src/fft_kernels.rs', 'src/num.rs'],
     [('kernels for n <= 16', 'src/fft_kernels.rs'), ('Stockham for larger powers of two', 'src/fft.rs'), ('Bluestein for other lengths', 'src/fft.rs')], over=('inputs', 'configurations'))
prop('C02', 'Inverse complex FFT equals the inverse DFT and undoes the forward one',
     'For every length n >= 1 and every finite complex spectrum, the in-place inverse transform returns x[t] = (1/n) * sum over k of X[k]*exp(+2*pi*i*k*t/n) in f32 and f64 up to rounding, so applying it to the forward transform gives back the original samples.',
     'every complex spectrum of each length and both precisions', LEN, ['src/fft.rs', 'src/fft_kernels.rs'],
     [('conjugate / forward / conjugate / scale', 'src/fft.rs ScalarFftImpl::ifft')], over=('inputs', 'configurations'))
prop('C03', 'An FFT engine gives the same answer whatever it transformed before',
     'The result of a transform on a reused engine, planner or plan depends only on the data handed to that call: any earlier sequence of forward, inverse, strided, split or out-of-place transforms of other lengths on the same object changes nothing. Cached tables, chirps and scratch buffers are never observable.',
     'every sequence (up to the stated length) of transforms of different lengths, directions and entry points on one engine, and all their data',
     'Tests almost always create a fresh engine per transform; the caches are keyed and resized by length, so stale state only shows for particular sequences of lengths.',
     ['src/fft.rs', 'src/rfft.rs', 'src/dct.rs', 'src/dst.rs'], [('planner caches and reused scratch buffers', 'src/fft.rs FftPlanner, ScalarFftImpl')], over=('histories', 'inputs'))
prop('C04', 'All complex FFT entry points compute the same transform',
     'In-place, out-of-place, split real/imaginary, batched, multi-channel, strategy-selected, plan based, mixed-radix, twiddle-table, SIMD-typed and parallel variants all return the transform that the plain engine defines, forward and inverse, for every length they accept. A variant either computes that transform or returns an error; it never returns something else.',
     'every input of each length, for every public entry point and direction', 'The alternative entry points are tested at one or two power-of-two lengths, mostly by round trip, which cannot see a consistently permuted spectrum.',
     ['src/fft.rs', 'src/num.rs'], [('FftImpl provided methods, FftPlan, free functions', 'src/fft.rs')], over=('inputs', 'configurations'))
prop('C05', 'Strided FFTs transform exactly the addressed samples',
     'A strided transform with stride s treats elements 0, s, 2s, ... as the signal: those positions receive its DFT (or inverse DFT) and every other element of the buffer, and an out-of-place input, keeps its exact value. Stride 0 and buffers too short for the addressed samples are rejected with an error, for every stride value up to the largest integer, and never panic.',
     'all data, strides and buffer lengths within the bounds; stride and length fully symbolic in the error contract', 'Tests use one stride and compare only the addressed samples; the gaps and overflow-sized strides are never examined.',
     ['src/fft.rs'], [('fft_strided, ifft_strided, out-of-place and allocating forms', 'src/fft.rs')])
prop('C06', 'Compile-time sized stack FFT equals the DFT',
     'The fixed-size, heap-free complex FFT and its inverse return the same transform as the DFT definition for every supported power-of-two size, and reject every unsupported size with an error instead of returning a wrong spectrum.',
     'every input array of each supported size', 'Only one or two sizes are instantiated by tests.', ['src/fft.rs', 'src/fft_kernels.rs'], [('fft_inplace_stack / ifft_inplace_stack', 'src/fft.rs')])
prop('C07', 'Complex FFT calls reject bad arguments with an error and never panic',
     'Empty data, mismatched buffer lengths and lengths unsupported by a radix- or table-specific routine are answered by an error value of the documented kind, on every entry point, and on an error the routine neither panics nor reads or writes out of bounds nor loops forever.',
     'every entry point with every small combination of buffer lengths (0..limit), data symbolic', 'Each error path is sampled once, for one entry point and one pair of lengths.', ['src/fft.rs', 'src/num.rs'], [('argument validation at the entry points', 'src/fft.rs')])
prop('C08', 'Real FFT returns the first half of the complex spectrum',
     'For every even length n >= 2 and every finite real input, every real-FFT variant (engine method, planner with or without caller scratch, packed, stack based) returns bins 0..n/2 of the DFT of that input, in f32 and f64 up to rounding. The imaginary parts of bins 0 and n/2 are zero up to rounding.',
     'every real input of each length', LEN, ['src/rfft.rs', 'src/fft.rs'], [('pack into half-length complex FFT and unpack', 'src/rfft.rs')], over=('inputs', 'configurations'))
prop('C09', 'Inverse real FFT reconstructs the real signal',
     'For every even length n and every Hermitian half spectrum (bins 0..n/2, first and last real), every inverse real-FFT variant returns the real signal whose DFT it is, so inverse after forward is the identity up to rounding.',
     'every half spectrum of each length', LEN, ['src/rfft.rs'], [('pack spectrum, half-length inverse FFT', 'src/rfft.rs')], over=('inputs', 'configurations'))
prop('C10', 'Real FFT calls validate lengths and never panic',
     'Empty or odd-length input, an output that does not hold exactly n/2+1 bins, and scratch that is too small are rejected with an error by every real-FFT variant, forward and inverse; no length combination panics or touches memory out of bounds.',
     'every combination of input, output and scratch lengths up to the bound', 'One mismatched pair is tested per function.', ['src/rfft.rs'], [('length checks before slicing', 'src/rfft.rs')])
prop('C11', '2D and 3D FFTs are the DFT applied along every axis',
     'The multidimensional transforms return the DFT along every axis of the row-major array, for every shape including non-square ones and extents of 1, and flattening helpers preserve every element at its row-major position. Inconsistent shapes, ragged inputs, too-small scratch and empty extents are errors (or a defined no-op), never panics.',
     'every data array of each small shape', 'Tests use one square shape and an impulse or round trip.', ['src/ndfft.rs'], [('row/column/depth passes with scratch', 'src/ndfft.rs')])
prop('C12', 'DCT types I to IV compute their defining sums',
     'For every length and finite input each DCT type returns its documented cosine sum, identically (up to rounding) from the plain function, the planner, the reference (slow) form, the fixed-size stack form and the batch and multi-channel forms.',
     'every real input of each length', LEN, ['src/dct.rs'], [('direct and FFT based DCT', 'src/dct.rs')], over=('inputs', 'configurations'))
prop('C13', 'DCT pairs invert each other up to the known scale',
     'DCT-III undoes DCT-II, and DCT-I and DCT-IV undo themselves, up to the fixed scale factor of their conventions, for every length and input.',
     'every real input of each length', 'Round trips are tested for one vector of length 4 to 8.', ['src/dct.rs'], [('dct1..dct4', 'src/dct.rs')])
prop('C14', 'DST types I to IV compute their defining sums and invert each other',
     'For every length and finite input each DST type returns its documented sine sum from the plain, planner, batch, multi-channel and stack forms alike, and DST-III undoes DST-II (DST-I and DST-IV undo themselves) up to the fixed scale factor.',
     'every real input of each length', 'The existing round-trip tests accept any result (their tolerance is never exceeded).', ['src/dst.rs'], [('dst1..dst4', 'src/dst.rs')])
prop('C15', 'Hartley transform equals its cas sum and is self-inverse up to n',
     'For every length and finite real input the Hartley transform returns H[k] = sum over t of x[t]*(cos(2*pi*k*t/n)+sin(2*pi*k*t/n)), so applying it twice returns n times the input; batch and multi-channel forms transform each row independently.',
     'every real input of each length', LEN, ['src/hartley.rs'], [('dht', 'src/hartley.rs')])
prop('C16', 'Analytic signal keeps the real part and removes negative frequencies',
     'For every finite real signal of power-of-two length (other lengths are rejected with an error), the analytic signal has the input as its real part and its Hilbert transform as imaginary part: its DFT is twice the input\'s on positive frequencies, equal at DC and at Nyquist and zero on negative frequencies.',
     'every real input of each length', LEN, ['src/hilbert.rs'], [('one-sided spectrum and inverse FFT', 'src/hilbert.rs')])
prop('C17', 'Chirp-z transform evaluates the z-transform on its contour',
     'For every input x, output count m and contour parameters w and a, the chirp-z transform returns X[k] = sum over n of x[n]*a^(-n)*w^(n*k) up to rounding, so with w = exp(-2*pi*i/N), a = 1 and m = N it is the DFT.',
     'every input vector of each length pair, for listed contours', 'Only the DFT contour is tested.', ['src/czt.rs'], [('czt_f32', 'src/czt.rs')])
prop('C18', 'Goertzel magnitude equals the DFT bin magnitude',
     'For every finite input and target frequency, the Goertzel routine returns the magnitude of the DFT bin nearest to the frequency; the result is finite and not negative, including for signals without energy at that bin, and empty input is an error or zero, never a panic.',
     'every real input of each length', 'One sine wave is tested with a loose tolerance; catastrophic cancellation to a negative power is not.', ['src/goertzel.rs'], [('two-tap recurrence and power formula', 'src/goertzel.rs')])
prop('C19', 'Real cepstrum is the inverse transform of the log magnitude spectrum',
     'For every finite input of power-of-two length (other lengths are rejected with an error) the real cepstrum equals the inverse DFT of ln(|DFT(x)| + floor) with the documented floor, is real and finite even for all-zero input, and has the length of the input.',
     'every input of each length', 'Only length and finiteness are tested.', ['src/cepstrum.rs'], [('real_cepstrum', 'src/cepstrum.rs')])
prop('C20', 'Mel filterbank is well formed and MFCC is the DCT-II of log mel energies',
     'Mel energy m is the sum of the spectrum weighted by the triangle between mel-spaced corner bins m, m+1 and m+2 (zero when the triangle has an empty side), for every sample rate, spectrum size and filter count, so that all weights lie between 0 and 1; the MFCCs of a frame are the first coefficients of the DCT-II of ln(energy + 1e-12), asking for more coefficients than filters is an error, and each frame of a batch gives the single-frame result.',
     'every frame within the bounds', 'Tests check only output lengths.', ['src/cepstrum.rs'], [('mel_filterbank, mfcc, mfcc_batch', 'src/cepstrum.rs')])
prop('C21', 'Single-level wavelet analysis and synthesis reconstruct the signal',
     'For every signal length and all finite samples, Haar analysis returns the pair averages and half differences and its inverse restores the signal; db2, db4, sym4 and coif1 analysis returns the inner products of the mirror-extended signal with the published orthonormal low-pass taps and their quadrature mirror, at every even position, and their inverse is the transposed operation, so that every even-length signal is reconstructed at all positions at least (number of taps - 2) away from both ends (the documented boundary effect).',
     'every real signal of each length', 'Tests of the longer filters accept errors as large as the signal.', ['src/wavelet.rs'], [('haar, db2, db4, sym4, coif1 forward/inverse', 'src/wavelet.rs')])
prop('C22', 'Multi-level and batched wavelets agree with repeated single-level transforms',
     'A multi-level transform equals single-level transforms applied repeatedly to the approximation (odd lengths are extended by repeating the last sample), its inverse undoes the levels in reverse order without panicking for any length (with Haar it restores every original sample), and batch and fixed-size forms return exactly what the single forms return for each row.',
     'every real signal of each length and level count', 'One depth and length per family is tested.', ['src/wavelet.rs'], [('multi_level, batch and stack forms', 'src/wavelet.rs')])
prop('C23', 'Window functions have their defining values for every length',
     'For every length each window returns its defining formula: Hann, Hamming and Blackman in periodic form (denominator len), Kaiser, Tukey, Bartlett, Bohman and Nuttall in symmetric form (denominator len - 1, the single sample of length 1 being 1). So all values are finite and between 0 and 1 up to rounding, length 0 gives an empty window, Tukey clamps its parameter to 0..1 and Kaiser is finite for every shape parameter up to 80; the in-place fixed-size forms equal the allocating ones.',
     'every length up to the bound, and every shape parameter in range', 'A few lengths and end values are tested.', ['src/window.rs', 'src/window_more.rs'], [('window generators', 'src/window.rs, src/window_more.rs')])
prop('C24', 'STFT frames are the FFTs of windowed signal segments',
     'Frame f of the short-time transform is the DFT of signal[f*hop .. f*hop+len] times the window, with samples beyond the end taken as zero, for every signal length, window, hop and number of frames; nothing outside the segment influences the frame.',
     'every signal and window of each shape', 'Tests mainly do round trips with one hop and window length.', ['src/stft.rs'], [('stft, frame', 'src/stft.rs')])
prop('C25', 'Inverse STFT reconstructs the signal wherever the window covers it',
     'Overlap-add with window-square normalisation returns the original samples at every position covered by a non-vanishing window sum, for every window and hop, forward followed by inverse, and positions no window covers become zero; the inverse of arbitrary frames is the window-weighted overlap-add of their inverse DFTs divided by the sum of squared windows; the previous contents of the output and scratch buffers do not matter.',
     'every signal and window of each shape, and every prior buffer content', 'Round trips use one window and hop, zeroed buffers, and look at interior samples only.', ['src/stft.rs'], [('istft, inverse_frame', 'src/stft.rs')])
prop('C26', 'Streaming STFT yields the same frames as the batch STFT',
     'Pulling frames one at a time yields, in order, exactly the frames of the batch transform, ends when the signal is exhausted, and does not depend on reuse of the output buffer or FFT engine.',
     'every signal of each shape and every sequence of calls', 'One streaming test compares a single shape.', ['src/stft.rs'], [('StftStream', 'src/stft.rs')], over=('inputs', 'histories'))
prop('C27', 'Streaming inverse STFT equals the batch inverse and never panics',
     'Pushing frames one by one and flushing produces the same samples as the batch inverse of the same frames, in hop-sized pieces with the tail from the flush; hops larger than the window and mismatched buffers are handled by an error or gaps, never by a panic.',
     'every frame sequence of each shape', 'One window/hop is tested; hop > window is not.', ['src/stft.rs'], [('IstftStream', 'src/stft.rs')], over=('inputs', 'histories'))
prop('C28', 'Parallel execution gives the sequential result under every schedule',
     'The parallel forward and inverse short-time transforms, and the parallel parts of the complex FFT, return the result of the sequential code (same values up to rounding, same errors) for every number of workers and every order in which work items run; no work item touches another one\'s data.',
     'every order of work items and every split into workers within the bounds, all data', 'Tests run whatever schedule the machine picks.', ['src/stft.rs', 'src/fft.rs'], [('rayon parallel iterators', 'src/stft.rs parallel, inverse_parallel; src/fft.rs ifft')], over=('schedules', 'inputs'))
prop('C29', 'STFT calls validate their arguments and never panic',
     'A hop of zero (InvalidHopSize), frame buffers, windows or scratch of the wrong length and too few frames (MismatchedLengths) are answered with that error by every short-time transform (batch, frame, stream, parallel); no combination of small signal, window, hop and frame counts panics or reads out of bounds.',
     'every combination of lengths up to the bound', 'One mismatch per function is tested.', ['src/stft.rs'], [('argument validation', 'src/stft.rs')])
prop('C30', 'Magnitude spectrogram contains the frame magnitudes and the right maximum',
     'The magnitude spectrogram returns, for each hop position, the magnitudes of the first half of the windowed frame\'s spectrum, and the reported maximum is the largest magnitude returned; degenerate arguments are errors, never panics.',
     'every signal of each shape', 'Only frame counts are tested.', ['src/visual/spectrogram.rs'], [('stft_magnitudes', 'src/visual/spectrogram.rs')])
prop('C31', 'Decibel scaling is monotone and clamped to [0,1]',
     'Mapping a magnitude to display scale yields 0 to 1 for every finite magnitude, reference maximum and positive dynamic range, is monotone in the magnitude, maps the reference maximum to 1 and everything below the dynamic range to 0, and is never NaN.',
     'every magnitude, maximum and range in the stated boxes', 'A handful of points are tested.', ['src/visual/spectrogram.rs'], [('db_scale and friends', 'src/visual/spectrogram.rs')])
prop('C32', 'Colour mapping is total and hits its end points',
     'Every intensity, including values outside 0 to 1, maps to a valid colour of the selected palette without panic; values below 0 act as 0 and above 1 as 1, and grey scale is monotone. A palette name selects its palette in any letter case, and every other name the default palette (Fire).',
     'every float intensity and every palette', 'A few intensities are tested.', ['src/visual/spectrogram.rs'], [('map_color*', 'src/visual/spectrogram.rs')])
prop('C33', 'Logarithmic binning and pixel mapping stay in range and are monotone',
     'The frequency-bin helpers map every bin, pixel row and size to indices inside their arrays, are monotone, and cover both ends of the axis, for all sizes.',
     'every size and value within the bounds', 'A few sizes are tested.', ['src/visual/spectrogram.rs'], [('log_scale_bins, map pixel helpers', 'src/visual/spectrogram.rs')])
prop('C34', 'Song index returns the song that matches by name first and by content second',
     'For every sequence of index and identify calls and every change of the files in between: identify returns the song last recorded under the same file name (whatever directory, without needing the file), else the song recorded with the same complete content (of any length, read to the end), else records the file as a new song under its own path; index records the file under its name and content, replacing earlier records; a file that cannot be read is an error and records nothing; names that are not valid text are never matched by name.',
     'every history up to the bounds, every file content', 'Three fixed two-step histories are tested.', ['src/media/index.rs'], [('SongIndex::index_song, SongIndex::identify, hash_file', 'src/media/index.rs')], over=('inputs', 'histories', 'fault_sequences'))
prop('C35', 'Feature selection never changes results',
     'Every supported feature combination (with or without std, SIMD features, precomputed twiddles, compile-time real FFT, fused multiply-add) builds and computes the same transforms up to rounding; a build feature may change speed but not output (lengths that are not powers of two are an error without std, as documented).',
     'every input of each length, for each feature set', 'CI runs one feature set; the others are compiled at best.', ['src/fft.rs', 'src/rfft.rs', 'src/num.rs', 'build.rs'], [('cfg-selected code paths', 'src/fft.rs, src/rfft.rs, src/num.rs, build.rs')], over=('configurations', 'inputs'))
prop('C36', 'Parallel threshold settings act as documented and cannot break results',
     'For every combination of run-time settings and environment settings (including malformed, zero and huge values) the length from which inverse transforms run in parallel follows the documented precedence (explicit threshold, else max(cache/8, per-core work, block) times threads; run-time settings win over the environment, 0 or malformed means unset), computing it never panics or overflows, and the choice never changes the transform result.',
     'every override value and the listed environment settings', 'A few values are tested in one process.', ['src/fft.rs'], [('parallel threshold heuristics and OnceLock caches', 'src/fft.rs')], over=('configurations', 'inputs'))
prop('C40', 'Complex arithmetic and layout conversions are exact',
     'Complex addition, subtraction, multiplication, negation and construction from an angle follow the field definitions up to rounding, and conversions between interleaved and split layouts keep every element in place unchanged; slices of different lengths are rejected (by the asserted panic), never truncated or read out of bounds.',
     'every operand and every layout length', 'A few operands are tested.', ['src/num.rs', 'src/fft.rs'], [('Complex operators, SplitComplex and ComplexVec conversions', 'src/num.rs')])
prop('C41', 'Twiddle tables hold the roots of unity they are indexed by',
     'Every table of rotation factors handed out by the planner or the public twiddle buffer holds exp(-2*pi*i*k/n) at index k below n/2 for every size, precomputed or generated, first use or cached, in f32 and f64 up to rounding; the Bluestein tables hold the chirp exp(-i*pi*k*k/n) and the spectrum of its conjugate kernel.',
     'every size up to the bound and every order of requests', 'One or two entries are tested.', ['src/fft.rs', 'build.rs'], [('get_twiddles, TwiddleFactorBuffer, build script tables', 'src/fft.rs, build.rs')], over=('inputs', 'histories', 'configurations'))
prop('C42', 'Command line helper chooses build settings by the host rules',
     "The task runner's configuration follows the host for every combination of architecture, capability and core count: an architecture containing x86_64 selects feature x86_64 plus avx512, avx2 or sse for the best of the detected avx512f, avx2 and sse4_1, with the matching target-feature flags (plus fma) for the AVX levels and none otherwise; aarch64 or arm64 selects aarch64; more than one core adds parallel; extra features given by the user are split at blanks and appended in order; the parallel example is run exactly when parallel is among the features; the argument handed to cargo is the features joined by single blanks.",
     'every architecture string, flag string, core count and extra feature string up to the bounds', 'A few combinations are tested.', ['xtask/src/lib.rs'], [('compute_config, features_arg', 'xtask/src/lib.rs')], over=('configurations', 'inputs'))
prop('C45', 'Task runner commands carry the configured settings unchanged',
     'For every configuration the task runner runs cargo with the subcommand of the task in the current directory: build, test, the benchmark, the library benchmarks and the benchmark readme update pass --features followed by the configured features joined by single blanks exactly when there is at least one; the three benchmark tasks set RUSTFLAGS to the configured flags exactly when there are some; the benchmark runs the configured example in release mode; clippy and fmt do not depend on the configuration; the sanity check passes the input path and then the output path, unchanged, after the separator. Nothing else is passed or set.',
     'every list of feature names, flags, example name and pair of paths up to the bounds', 'A few fixed configurations are tested for single arguments.', ['xtask/src/lib.rs'], [('build_command, test_command, benchmark_command, bench_libs_command, update_bench_readme_command, clippy_command, fmt_command, sanity_command', 'xtask/src/lib.rs')], over=('configurations', 'inputs'))
prop('C43', 'Sanity checker reports the spectrogram of the audio it decoded',
     'The command-line sanity checker decodes an audio file and writes an image whose pixels are the spectrogram of the decoded samples.',
     'every audio file', 'No end-to-end test.', ['sanity-check/src/main.rs'], [('main pipeline', 'sanity-check/src/main.rs')],
     na='The tool is file decoding, console progress and PNG encoding through third-party crates with only precompiled or very large code behind them; none of that can be encoded symbolically within reach. The spectrogram functions it calls are covered by C24 and C30 to C33.')
prop('C44', 'Web spectrogram back end serves the spectrogram of the streamed audio',
     'The browser front end streams audio samples and receives spectrogram columns consistent with the library\'s transforms.',
     'every audio stream', 'No end-to-end test.', ['web-spectrogram/src/lib.rs'], [('wasm bindings', 'web-spectrogram/src/lib.rs')],
     na='web-spectrogram does not parse as Rust at the pinned commit (and targets wasm/JavaScript bindings that are not installed), so there is no code to execute symbolically.')

NOTE = 'Bounded: z3 decides every assertion over all input values in the stated boxes for the listed sizes and paths, on the LLVM IR rustc emits from the current tree; rounding is over-approximated by a sound error bound. Trusts the IR executor (validated bit for bit against the native build each run), z3, and models of the precompiled std functions listed in the evidence. Sizes and shapes outside the bounds are not covered.'
TECH = 'symbolic execution of the compiled LLVM IR, z3 decides the assertions over all inputs; counterexamples replayed natively'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'state': [], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['obs'], 'hook_needed': None}}) + '\n')
            assert len(p['title']) <= 80, p['id']
    checks, na = [], []
    for p in P:
        if p['na'] is None and os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': 'model_checking', 'level_note': p['note'] or NOTE})
        else:
            na.append({'property': p['id'], 'reason': p['na'] if p['na'] not in (None, 'pending') else 'The check for this property is still being built.'})
    json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
               'notes': 'All checks share the executor in engine/ and the harness crate in harness/; see DESIGN.md. No hooks in /repo are needed.'},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
