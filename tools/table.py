"""The properties, one entry each; tools/meta.py writes properties.jsonl and MANIFEST.json from it."""
NOTE = ("Exhaustive over the stated bounded spaces on the real code; every execution is compared with an "
        "independent reference model. Trusts NumPy/SciPy and the reference model; inputs outside the "
        "enumerated alphabets and sizes are not covered. ")

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, note="", technique=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
             note=(NOTE + note).strip())
    if technique:
        d["technique"] = technique
    PROPS.append(d)


B, C, L, R, A = ["tftb/processing/%s.py" % s for s in ("base", "cohen", "linear", "reassigned", "affine")]
II = ["inputs", "configurations"]

P("C01", "Wigner-Ville distribution equals its definition",
  "For every finite complex or real signal and every number of frequency bins n >= 1, entry (k, t) of the "
  "Wigner-Ville distribution is sum over lags |tau| <= n/2 (as far as the signal reaches on both sides of t) of "
  "x[t+tau] x*[t-tau] exp(-2 pi i k tau / n), where for even n the two lags +-n/2 count half each; it is real, "
  "and row k is labelled k/(2n), column t with the label of sample t (the caller's per-sample labels returned "
  "unchanged). Hence it has the exact time marginal |x[t]|^2 (column sum divided by n) and, for n >= the signal "
  "length, the energy-density frequency marginal, and scales with |c|^2.",
  II, "all signals, all lengths, all bin counts (fewer, as many or more than samples, odd or even), all sample labels",
  "The tests evaluate one Gaussian atom with n = N = 128 and look at its total energy and a structural similarity.",
  [C, B], [("WignerVilleDistribution.run", "tftb/processing/cohen.py"),
           ("time and frequency axes", "tftb/processing/base.py")])

P("C02", "Pseudo and smoothed pseudo Wigner-Ville equal their definitions",
  "For every signal, bin count and odd-length window, the pseudo Wigner-Ville distribution is the Wigner-Ville lag "
  "sum with lag tau weighted by the window's value at tau from its centre, and the smoothed pseudo distribution "
  "additionally averages each lag product over the time window, renormalised over the samples inside the signal. "
  "Both are real; the pseudo distribution labels row k with k/(2n) and column t with sample t's label, the smoothed "
  "one has one column per requested instant, centred on that sample. Omitted windows are odd Hamming windows of "
  "about n/4 bins (lag) and n/10 bins (time).",
  II, "all signals, lengths, bin counts, windows longer or shorter than the bins, selected instants in any order "
      "(smoothed: lag windows with unit centre)",
  "One chirp with default windows (pseudo) and one shape check (smoothed) are tested.",
  [C, B], [("PseudoWignerVilleDistribution.run, smoothed_pseudo_wigner_ville", "tftb/processing/cohen.py")])

P("C03", "STFT and spectrogram equal their definitions",
  "For every signal, window and bin count n, column t of the short-time Fourier transform is the n-point Fourier "
  "sum of x[t+tau] h*[tau] over the lags inside the window, the signal and |tau| <= (n-1)/2, tau counted from the "
  "window's centre, so it is linear in the signal. The spectrogram is its squared modulus with each column divided "
  "by the energy of the part of the window used there, one column per requested instant, real and non-negative. "
  "Row k of both is labelled with the frequency of Fourier bin k, the upper half being negative.",
  II, "all signals, lengths, bin counts, real and complex windows, instants",
  "One shape/structure comparison and one energy sum on a fixed signal are tested.",
  [L, C, B], [("ShortTimeFourierTransform.run", "tftb/processing/linear.py"), ("Spectrogram.run", "tftb/processing/cohen.py")])

P("C04", "Margenau-Hill distribution equals its definition and has both marginals",
  "For every signal of N samples, every n >= N bins and every list of instants, the Margenau-Hill distribution at "
  "bin k and instant t is Re(x[t] X*[k] exp(-2 pi i k t / n)), X being the n-point Fourier transform. Its column "
  "sums divided by n are |x[t]|^2 and, over all instants, its row sums are |X[k]|^2.",
  II, "all signals, lengths, bin counts >= the length, instants in any order",
  "Not tested beyond one fixed signal.",
  [C, B], [("MargenauHillDistribution.run", "tftb/processing/cohen.py")])

P("C09", "Reassignment moves each value to its centroid and loses no energy",
  "Each reassigned representation (spectrogram, smoothed pseudo Wigner-Ville, pseudo Wigner-Ville, pseudo "
  "Margenau-Hill, pseudo Page, Morlet scalogram) returns the distribution itself, the reassigned distribution and "
  "the reassignment field. Every cell above one millionth of the mean power is moved whole to the cell nearest its "
  "local centre of gravity (frequency modulo the bins, time clipped to the columns), every other cell stays, and "
  "the field names exactly where each went, counting bins and columns from 0. So the reassigned distribution has "
  "the same total as the original for every signal, window, bin count and regular grid of instants.",
  II, "all signals, windows, bin counts, regular time grids",
  "The tests check the shape of two results on one signal; four of the six representations never ran in a test.",
  [R], [("spectrogram, smoothed_pseudo_wigner_ville, pseudo_wigner_ville, pseudo_margenau_hill, pseudo_page, "
         "morlet_scalogram", "tftb/processing/reassigned.py")])

AM = "tftb/processing/ambiguity.py"
G = "tftb/generators/"

P("C10", "Narrow-band ambiguity function equals its definition",
  "For every signal of N samples, every number of Doppler bins n >= N and every list of lags, the narrow-band "
  "ambiguity function at lag tau and Doppler shift xi is the sum over t of x[t+tau] x*[t-tau] exp(-2 pi i xi t) "
  "with t counted from the first sample, lags reaching outside the signal contributing zero. The returned "
  "lag and Doppler axes name those lags and shifts. Its value at the origin is the energy of the signal and nowhere "
  "is it larger.",
  II, "all signals, lengths, bin counts >= the length, lists of lags in any order",
  "The tests compare one signal with one stored picture property.",
  [AM], [("narrow_band", AM)])

P("C11", "Wide-band ambiguity function equals its definition",
  "For every real signal (the real part of a complex one), band and number of voices, the wide-band ambiguity "
  "function is the correlation, over time delay and dilation, of the analytic signal with its energy-preserving "
  "dilated copies, computed from its Mellin transform on a geometric grid of frequencies over the band; the delay "
  "and log-dilation axes it returns are the ones its values belong to. It is quadratic in the signal and ignores the "
  "imaginary part. An omitted band is read off the signal's spectrum and an omitted number of voices is the smallest "
  "power of two that covers the band.",
  II, "all lengths, bands, numbers of voices; row and column vectors",
  "One call on one signal is tested.",
  [AM], [("wide_band", AM)])

P("C12", "Affine distributions equal their definition and carry the band's energy",
  "For every real signal, band and number of voices, the Bertrand, D-Flandrin, active and passive Unterberger "
  "distributions are the affine Wigner integrals of their own kernel, evaluated over a geometric grid of "
  "frequencies at the requested instants. Each is real, with the returned axes naming its rows and columns, and is "
  "normalised so that its integral over time and frequency is the energy of the analytic signal in the band. An "
  "omitted band is read off the signal's spectrum.",
  II, "all signals, lengths, bands, voice counts and regular time grids; rows and columns",
  "The tests look at the energy of one atom for one configuration of each class.",
  [A], [("BertrandDistribution, DFlandrinDistribution, UnterbergerDistribution", A)])

P("C13", "Scalogram is the squared wavelet transform with the energy of its band",
  "For every real signal, band, number of voices and wavelet width, the scalogram is the squared modulus of the "
  "wavelet transform of the centred analytic signal (Morlet wavelets of the given width at the highest frequency, or "
  "Mexican hats when the width is 0) at the requested instants, centred on each instant. Its rows lie on a geometric "
  "frequency grid spanning the band, returned as the frequency axis, and it is normalised to the energy of the "
  "signal in that band.",
  II, "all signals, lengths, bands, voice counts, wavelet widths and regular time grids",
  "The tests check the energy of one atom for the default wavelet.",
  [A], [("Scalogram.run", A)])

P("C14", "Gabor coefficients and the dual window rebuild the signal",
  "For every signal of N samples, every number n of time shifts dividing N and every oversampling dividing n, the "
  "Gabor coefficients form a frequency-by-time array, and whenever the shifted and modulated window spans the "
  "signals, the returned dual window is biorthogonal to it: analysing with the dual and synthesising with the window "
  "returns the signal exactly. The returned representation is the squared modulus of the coefficients, and the "
  "coefficients are linear in the signal.",
  II, "all lengths, lattices (shifts, oversampling), signals and windows no longer than the signal",
  "One shape is tested on one lattice.",
  [L], [("gabor", L)])

P("C15", "Amplitude modulations have the stated shape, centre and spread",
  "For every length, centre and spread (centres inside, at, between or outside the samples), the Gaussian, "
  "one-sided and two-sided exponential, rectangular and triangular modulations are exactly the documented function "
  "of the distance to the centre divided by the spread, with values in [0, 1]. Omitted arguments mean the middle of "
  "the record and a spread of twice the square root of the length.",
  II, "all lengths, centres, spreads",
  "The tests evaluate each at one length and centre.",
  [G + "amplitude_modulated.py"], [("amgauss, amexpos, amrect, amtriang", G + "amplitude_modulated.py")])

P("C16", "Frequency modulated signals follow their instantaneous frequency law",
  "For every length and parameters, the constant, linear, hyperbolic, parabolic, power-law, sinusoidal and "
  "arbitrary frequency modulations return a signal of modulus one whose phase is the integral of the instantaneous "
  "frequency law returned with it, with zero phase at the documented reference. The law is the one asked for "
  "(through the two given points, or with the given coefficients, band and period), and frequencies outside [0, 1/2] "
  "in the hyperbolic, parabolic and power laws are warned of.",
  II, "all lengths, frequencies, points, coefficients, periods and time references",
  "The tests compare instantaneous frequencies at one length with one set of parameters each.",
  [G + "frequency_modulated.py"], [("fmconst, fmlin, fmhyp, fmpar, fmpower, fmsin, fmodany", G + "frequency_modulated.py")])

P("C17", "Keyed signals carry one symbol of the alphabet per component",
  "For every length, component length (dividing it or not), carrier and random state, amplitude, binary phase, "
  "quaternary phase and frequency shift keying return exactly the requested number of points; the modulating law is "
  "constant on each component, takes only symbols of the alphabet, and the signal is the carrier modulated by exactly "
  "that law. Every word of symbols is reachable.",
  ["inputs", "configurations", "histories"], "all lengths, component lengths, carriers, alphabet sizes and random states",
  "The tests look at one length which the component length divides.",
  [G + "analytic_signals.py"], [("anaask, anabpsk, anaqpsk, anafsk", G + "analytic_signals.py")])

U, PP, PU, FD, TD = ("tftb/utils.py", "tftb/processing/postprocessing.py", "tftb/processing/utils.py",
                     "tftb/processing/freq_domain.py", "tftb/processing/time_domain.py")

P("C18", "Noise has the asked length, is analytic, of unit power and reproducible",
  "For every length and random state, uniform and Gaussian analytic noise has exactly that many complex samples, "
  "zero mean and unit average power (split equally between real and imaginary parts), no negative frequencies when "
  "the length is a power of two above 2, and the marginal distribution it is named after. The noisy Doppler signal "
  "has the asked length, unit energy, the Doppler frequency law of a point moving on a straight line, and its "
  "spectrum follows that law: that of white noise through a resonance of radius 0.9 there. The same random state gives the same noise; successive draws differ.",
  ["inputs", "configurations", "histories"], "all lengths and all random states",
  "The tests look at mean and deviation of one draw.",
  [G + "noise.py"], [("noisecu, noisecg, dopnoise", G + "noise.py")],
  note="Moments are taken over all enumerated random states, with tolerances far beyond their deviation.")

P("C19", "Pulses, steps, singularities, chirped wavelets equal their definitions",
  "For every length and parameters, the analytic pulse, step and Lipschitz singularity are the analytic signals of "
  "the impulse, step and cusp at the requested instant; the Altes, Klauder and Mexican hat signals equal their "
  "formulas (the first two with unit energy and exactly the asked length); and the power-law group delay signal has "
  "zero mean, unit energy and the spectrum whose delay at each returned frequency is the returned power law.",
  II, "all lengths, instants, exponents, bands, attenuations, frequencies, degrees and rates",
  "The tests compare one length and one parameter set each, several with a stored picture only.",
  [G + "analytic_signals.py", G + "misc.py"],
  [("anapulse, anastep, anasing", G + "analytic_signals.py"), ("altes, klauder, mexhat, gdpower", G + "misc.py")])

P("C20", "Doppler signals, atoms, merging and scaling equal their definitions",
  "For every geometry, the Doppler generator returns the phase, amplitude and frequency law of a source passing on a "
  "straight line. Gaussian atoms sum, for each row, amplitude times Gaussian times tone centred on the given instant "
  "and frequency (clipped to the record and to [0, 1/2]). Merging two signals gives the first plus a multiple of the "
  "second such that their energies differ by exactly the asked decibels, and scaling dilates the analytic signal "
  "through its Mellin transform by each asked factor, keeping the energy of the input.",
  II, "all lengths, geometries, atom lists, energy ratios, dilations, bands and numbers of voices",
  "The tests use one parameter set each; scaling was never run.",
  [G + "misc.py", G + "utils.py"], [("doppler, atoms", G + "misc.py"), ("sigmerge, scale", G + "utils.py")])

P("C21", "Time and frequency localisation are the moments of the energy",
  "For every non-zero signal, the time centre and frequency centre are the first moments of its energy density in "
  "time (samples from 0) and in frequency (normalised, in [-1/2, 1/2)), and the spreads are 2 sqrt(pi) times the "
  "standard deviations. They do not change under scaling of the signal; delaying moves the time centre by the delay, "
  "modulating moves the frequency centre by the shift (as far as nothing wraps).",
  II, "all signals and lengths, even or odd, rows, columns or flat",
  "The tests evaluate one Gaussian of even length.",
  [TD, FD], [("loctime", TD), ("locfreq", FD)])

P("C22", "Instantaneous frequency and group delay equal their definitions",
  "At every requested instant t the instantaneous frequency is the phase advance from sample t-2 to t divided by "
  "4 pi, in [0, 1/2], returned with its instants, so a tone gives its own frequency everywhere. The group delay at "
  "each requested frequency (by default every Fourier frequency, in increasing order) is the real part of the "
  "spectrum of n x[n] over that of x, counting samples from 1, and 0 where it falls outside [1, length + 3].",
  II, "all signals and lengths, rows, columns or flat, any list of instants or frequencies",
  "The tests follow one sinusoidal modulation and one chirp.",
  [FD], [("inst_freq, group_delay", FD)])

P("C23", "Renyi information and ideal representation equal their definitions",
  "For every distribution with non-zero integral, axes and order, the Renyi information is the Renyi entropy in bits "
  "(Shannon's for order 1) of the distribution normalised to unit integral over the given axes. The ideal "
  "representation has, in the column of each requested instant, a 1 in the bin nearest each law's frequency there and "
  "0 elsewhere, nothing where a law is undefined, and bins labelled k/(2n).",
  II, "all tables, axes, orders; all sets of laws, bin counts and instants",
  "The tests evaluate one atom and one pair of laws.",
  [PP, PU], [("renyi_information, ideal_tfr", PP), ("integrate_2d", PU)])

P("C24", "Hough transform, instantaneous density and ridges count every point once",
  "For every image, each pixel above one twentieth of the maximum adds its value, at each angle, to the distance bin "
  "nearest its signed distance when that lies in [0, maximum], and the returned distance and angle axes name the "
  "bins. The Friedman density counts, column by column, the reassigned frequencies of the cells above half the mean "
  "and sums to 1. The ridges are exactly the cells above half the mean which reassignment leaves in place, in every "
  "column, reported at their instant and normalised frequency.",
  II, "all images, sizes and resolutions; all distributions, fields, instants and kinds",
  "The tests look at one chirp and one shape; the ridges of all but the last column were lost without a test noticing.",
  [PP], [("hough_transform, friedman_density, ridges", PP)])

P("C25", "Numeric helpers are exact for every number and array",
  "For every positive integer, the power-of-two exponent is the least one reaching it, the factor pair multiplies to "
  "it with its smaller-or-equal member the closest divisor to the root, and the nearest odd number is odd and not "
  "further than one away; congruences lie in 1..N. The inverse Zak transform is unitary on every matrix, linearity "
  "detection accepts exactly the arrays with one increment (to the given decimals), the planar integral is the "
  "trapezoidal rule, and the window derivative is the centred difference of the window.",
  II, "all integers, residues, arrays, shapes and axes",
  "The doctests evaluate a handful of values.",
  [U, PU], [("nextpow2, divider, nearest_odd, modulo, izak, is_linear", U), ("integrate_2d, derive_window, get_spectrum", PU)])

P("C06", "A representation object gives the same results whatever was done before",
  "For every time-frequency object and every sequence of computing, plotting (any kind, with or without marginal "
  "plots), copying and overwriting of previously returned arrays, each computation returns what a fresh object would "
  "return, plotting changes none of the results the object holds, no operation changes arrays handed out earlier or "
  "the caller's signal, and two objects alive together do not influence each other.",
  ["histories", "configurations"], "all sequences of operations on one or two objects",
  "Every test computes once and, at most, plots once.",
  [B, C, L, A], [("run/plot of every representation class", B)],
  technique="explicit-state exploration of all operation sequences on the real objects up to a depth, each step "
            "compared with a model of the object")

P("C07", "Every operation is a function of its arguments",
  "For every public operation and every argument set: the arguments come back unmodified, the result does not depend "
  "on what was called before (calls with other arguments, with the same arrays holding new contents, calls that were "
  "refused, or callers overwriting results they were given), only the documented random generators consume random "
  "numbers, and no global numeric, warning, plotting or random setting changes.",
  ["histories", "inputs"], "all sequences of calls",
  "Each test calls an operation once in a fresh setting and never looks at its arguments afterwards.",
  ["tftb/generators", "tftb/processing", U], [("all public functions and classes", "tftb/")],
  technique="explicit-state exploration of call histories on the real code, each history in a pristine forked "
            "process, compared with the result in a process in which nothing else ran")

P("C08", "Concurrent calls do not disturb each other",
  "Two threads using the library at the same time, through the same or different operations, with their own or with "
  "shared (read-only) input arrays, each get exactly the result of running alone, under every interleaving.",
  ["schedules"], "all interleavings of two threads",
  "The tests are sequential.",
  ["tftb/generators", "tftb/processing", U], [("all public functions and classes", "tftb/")],
  note="Interleavings: every schedule with one preemption (two for the cheaper operations) at line boundaries of the "
       "library, one at bytecode boundaries, strict alternation with every quantum; code inside NumPy is atomic.",
  technique="stateless model checking: systematic enumeration of the thread schedules of the real code under a "
            "controlled scheduler with a preemption bound")

P("C05", "The axes returned with a representation describe its content",
  "For every representation, length and bin count, the time and frequency axes have one distinct label per column and "
  "row, and the content lies where they say: a tone at the frequency labelling any row is strongest in that row of every "
  "interior column, an impulse at any instant of the time axis is strongest in that column, Gaussian packets appear in the "
  "scalogram at their instant and frequency, sample labels come back unchanged and change no value, affine "
  "representations have geometric frequencies from fmin to fmax and the requested instants, the ambiguity function has "
  "a pair of impulses at half their distance and a chirp's Doppler on its line, and reassignment keeps a tone in its bin.",
  II, "all classes, lengths, bin counts, labelled frequencies and instants",
  "No test compares the axes with the content.",
  [B, C, L, A, "tftb/processing/ambiguity.py", R],
  [("freqs and ts of every class", B), ("narrow_band axes", "tftb/processing/ambiguity.py")])

P("C26", "Arguments outside the documented domain are refused, those inside accepted",
  "Number of points <= 0, normalised frequencies beyond [-0.5, 0.5] (fmconst, fmlin, fmodany) or carriers outside "
  "[0, 0.5] (anaask, anabpsk, anaqpsk), origins outside the signal, impossible Doppler, Klauder, Mexican-hat and "
  "power-law parameters, matrices where a vector is required, even-length analysis windows where an odd length is "
  "documented, irregular instants for reassignment, unknown ridge methods, negative tables for Shannon entropy and the "
  "abstract affine class raise an exception (TypeError, ValueError, AssertionError; NotImplementedError for the last) "
  "and never return a result; arguments on the boundary of the domain are accepted.",
  II, "all arguments in and around the documented domains",
  "A few assertRaises with one value each.",
  ["tftb/generators", "tftb/processing"], [("argument checks of generators", "tftb/generators"),
                                             ("argument checks of representations", "tftb/processing")])

P("C27", "Plots draw the computed representation, where and how asked",
  "Plotting a representation draws exactly the values it holds: squared modulus (STFT, Margenau-Hill, Page and their pseudo forms), modulus "
  "(Wigner-Ville family) or the values themselves (spectrogram, affine), non-negative frequencies only (first half of the "
  "rows) for STFT, spectrogram, Margenau-Hill, Page and their pseudo forms, with values up to threshold x maximum removed (default 5 %, spectrogram "
  "0); at their instants and frequencies (image extent, coordinates of contours, surfaces and wire frames, affine ones at "
  "the geometric frequencies); with the given colour map, extent, levels and coordinates; on the given axes without opening a figure; "
  "with title and axis labels only if annotations are wanted; calling plt.show only if asked; with the real part of the "
  "signal and its spectrum beside it (show_tf). Frequency-law plots draw every law against the instants, with labelled axes. Results held by "
  "the object stay as they were.",
  II, "all classes, sizes, kinds, options",
  "No test plots.",
  [B, C, L, A, "tftb/processing/plotifl.py"], [("plot of every representation class", B), ("plotifl", "tftb/processing/plotifl.py")])

P("C28", "Results depend on the values given, not on how they are represented",
  "Every operation gives the same result (to rounding) for arrays holding the same values in any memory layout "
  "(read-only, reversed, strided, Fortran order, byte-swapped, unaligned, subclasses), for real signals held in complex "
  "arrays, for integer samples of any type and magnitude (no overflow), for single and extended precision, for instants of any "
  "signed integer type, for NumPy scalars instead of Python numbers and lists or arrays instead of tuples, and, where "
  "one-dimensional signals are expected, for rows and columns.",
  II, "all operations, layouts and number types",
  "The tests use fresh contiguous float64 or complex128 arrays.",
  ["tftb/generators", "tftb/processing", U], [("all public functions and classes", "tftb/")])

P("C29", "Omitted arguments mean their defaults, however arguments are passed",
  "For every operation, giving any subset of the optional arguments explicitly as their documented defaults (or None where "
  "that is the default) changes nothing, whichever others are given, and arguments may be passed by position or by name, in any order, with the "
  "same result.",
  II, "all operations, sizes and subsets of optional arguments",
  "The tests fix one way of calling each operation.",
  ["tftb/generators", "tftb/processing", U], [("signatures and defaults of all public functions and classes", "tftb/")])

P("C30", "Page, pseudo Page and pseudo Margenau-Hill equal their definitions",
  "For every signal of N samples, every number n of bins and every list of sample instants, the value at (k, t) is the "
  "real part of the sum over lags tau of h[tau] x[t] x*[t - tau] exp(-2 pi i k tau / n), samples outside the signal being "
  "absent: the Page distribution takes 0 <= tau < n with h = 1, the pseudo Page distribution 0 <= tau <= min(n - 1, half "
  "the window), the pseudo Margenau-Hill distribution |tau| <= min((n - 1) // 2, half the window), the window being the "
  "given one or a Hamming window of odd length n // 4 scaled to one at its centre. Values are real, columns are the "
  "requested instants, rows the n Fourier bins, every column sums to n h[0] |x[t]|^2, and both Page distributions are "
  "causal: later samples change nothing.",
  II, "all signals, lengths, bin counts, windows, lists of instants",
  "No test runs these classes.",
  [C, B], [("PageRepresentation.run", C), ("PseudoPageRepresentation.run", C), ("PseudoMargenauHillDistribution.run", C)])

P("C31", "An operation stopped at any point leaves nothing behind",
  "Whenever an operation of the library is stopped from outside at any point of its execution (an interrupt, memory "
  "running out), its arguments and the global settings (numeric, warning, plotting, random state of operations that draw "
  "nothing) are as before, and every later call, with the same or other arguments, gives what it always gives. "
  "A representation object whose computation was stopped computes, when asked again, the same results as a new object, and "
  "stopping a plot changes none of the results it holds nor how the next plot looks.",
  ["crash_points", "fault_sequences"], "all operations, all points at which they can be stopped",
  "No test interrupts anything.",
  ["tftb/generators", "tftb/processing", U], [("all public functions and classes", "tftb/"), ("results put back after a plot", B)],
  note="Crash points: every line event of the library (of long runs: the first two and the last pass of every line and a regular rest), "
       "except where no code can protect itself (leaving a with block, clean-up code itself); code inside NumPy is atomic.",
  technique="explicit-state model checking of crash points: systematic fault injection at every line of the real code, each "
            "history continued and compared with an undisturbed one")

PROPS.sort(key=lambda p: p["id"])
