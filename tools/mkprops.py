#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

RM = "RMutils/util_RM.py"; MISC = "RMutils/util_misc.py"; UF = "RMutils/util_FITS.py"
S1 = "RMtools_1D/do_RMsynth_1D.py"; S3 = "RMtools_3D/do_RMsynth_3D.py"
C1 = "RMtools_1D/do_RMclean_1D.py"; C3 = "RMtools_3D/do_RMclean_3D.py"

p("P01", "RM synthesis is the weighted Fourier sum of the polarised spectrum",
  "For every 1D, 2D or 3D Q/U input, weights and Faraday-depth grid (of any spacing, order or offset from zero), the returned dispersion function at each pixel and depth phi equals K*sum_i w_i*(Q_i + i*U_i)*exp(-2i*phi*(lambda_i^2 - lambda_0^2)), with K = 1/sum of the weights of that pixel's unflagged channels. Output axes are [phi, y, x] in the order of the input grid, with size-one axes dropped, and every pixel's result equals what its spectrum alone would give.",
  ["inputs"], "all finite Q, U, positive weights, wavelengths, reference wavelength and Faraday depths; 1D/2D/3D shapes",
  "Tests compare a few fixed cubes against a reference loop on one symmetric phi grid; the identity must hold for every spectrum, weight vector, grid and shape.",
  [RM], [("direct/NUFFT RM synthesis of Stokes planes", f"{RM}:do_rmsynth_planes")], ["returned FDF cube"])
p("P02", "Reference wavelength is the weighted mean over usable channels",
  "When no reference wavelength-squared is supplied, RM synthesis and the RMSF calculation return sum(w*lambda^2)/sum(w), where NaN-weighted channels and channels flagged in every pixel count with zero weight; when one is supplied it is used and returned unchanged. If no channel is usable RM synthesis returns a finite reference (zero) rather than failing.",
  ["inputs"], "all weight vectors incl. NaN weights, all flag patterns, forced or automatic reference",
  "Flag/weight combinations are exponential in the channel count; tests use unflagged uniform data.",
  [RM], [("weighted mean of lambda^2", f"{RM}:do_rmsynth_planes"), ("same for the RMSF", f"{RM}:get_rmsf_planes")], ["returned lam0Sq_m2"])
p("P03", "Flagged voxels never influence the dispersion function",
  "A voxel in which Q or U is NaN contributes nothing to its pixel: the result equals the synthesis of the remaining voxels, renormalised by the remaining weight, and is independent of whatever finite value the other Stokes parameter holds there. A pixel with no usable voxel comes back as NaN at every Faraday depth, and other pixels are unaffected.",
  ["inputs"], "all NaN patterns over Q and U voxels, all finite values elsewhere",
  "The number of flag patterns is 4^(voxels); tests contain almost none of them.",
  [RM], [("NaN masking and per-pixel normalisation", f"{RM}:do_rmsynth_planes")], ["returned FDF cube"])
p("P04", "The RMSF is the normalised transform of the sampling weights",
  "At every Faraday depth of the returned grid the RMSF of a pixel equals sum_i w_i*exp(-2i*phi*(lambda_i^2-lambda_0^2)) / sum_i w_i over that pixel's unmasked channels, so it is 1 at phi = 0; a pixel with every channel masked where others are not gets a zero RMSF. The value does not depend on whether the mask is uniform over the image or differs from pixel to pixel, nor on the Faraday-depth grid being symmetric.",
  ["inputs", "configurations"], "all weights, wavelengths, masks, 1D/2D/3D mask shapes, single or double grids",
  "Two code paths (replicated vs per-pixel) are chosen by the mask pattern; tests exercise a handful of masks on one symmetric grid.",
  [RM], [("RMSF calculation", f"{RM}:get_rmsf_planes")], ["returned RMSF cube"])
p("P05", "The RMSF grid extends the Faraday-depth grid and its width is analytic",
  "With padding requested the returned RMSF depth axis contains the input axis as a contiguous central block, continues it with the same spacing by ceil(n/2) samples on each side, and is otherwise the input axis itself. Unless a fit is requested and succeeds, each pixel's RMSF width is 3.8/(max lambda^2 - min lambda^2) with status -1, and a successful fit's width and status are reported for the pixel that was fitted.",
  ["inputs", "configurations"], "all uniform grids (odd and even lengths), wavelengths, masks and fit outcomes",
  "Even/odd lengths, masks and fit failures are combined in ways the tests do not sample.",
  [RM], [("padding by extrapolation", f"{RM}:extrap, get_rmsf_planes"), ("analytic FWHM / fit bookkeeping", f"{RM}:get_rmsf_planes")], ["phi2Arr, fwhmRMSFArr, statArr"])
p("P06", "RM-CLEAN conserves the spectrum: model, residual and restored agree",
  "After RM-CLEAN the dirty spectrum equals the residual plus the sum over clean components of component times the RMSF shifted to the component's depth, whatever the gain, threshold or iteration limit. The restored spectrum equals the residual plus each component convolved with a unit-peak Gaussian of the pixel's RMSF FWHM centred on its depth.",
  ["inputs", "histories"], "all dirty spectra, RMSFs, gains, thresholds and every clean iteration history within the bound",
  "Clean is a data-dependent loop; tests check the end result of one simulated spectrum only.",
  [RM], [("Hoegbom loop bookkeeping", f"{RM}:do_rmclean_hogbom, RMcleaner"), ("restoring Gaussian", f"{RM}:gauss1D")], ["cleanFDF, ccArr, residFDF"])
p("P07", "RM-CLEAN picks peaks and stops exactly by its documented rules",
  "Each iteration adds gain times the complex residual at its highest-amplitude depth to the component list; iteration stops as soon as the residual peak is below the threshold or the iteration limit is reached, and the reported iteration count is the number performed. Pixels whose dirty peak never reaches the threshold (or are blank) are returned untouched with no components.",
  ["inputs", "histories"], "all dirty spectra, RMSFs, gains, thresholds and iteration limits within the bound",
  "Needs every relation between residual peaks and threshold at every iteration.",
  [RM], [("clean loop", f"{RM}:RMcleaner.cleanloop"), ("pixel selection", f"{RM}:do_rmclean_hogbom")], ["ccArr, iterCountArr, residFDF"])
p("P08", "Windowed RM-CLEAN only adds components near first-pass components",
  "When a second, windowed threshold is given, after the first pass cleaning continues down to that threshold, but new components appear only within half a restoring-beam width (rounded to whole channels) of a first-pass component, including components at the edges of the spectrum. With no windowed threshold (NaN) nothing beyond the first pass happens.",
  ["inputs", "histories"], "all dirty spectra, component positions (edges included) and thresholds within the bound",
  "No test uses the window option at all.",
  [RM], [("window mask", f"{RM}:RMcleaner.cleanloop")], ["ccArr, residFDF"])
p("P09", "RM-CLEAN of a cube is independent per pixel and of parallel execution",
  "Every pixel of a cleaned cube equals what cleaning its spectrum alone (with its own RMSF and width) gives: components, residual, restored spectrum and iteration count. Running with a worker pool, which processes pixels in other processes, returns the same arrays as running serially.",
  ["inputs", "schedules"], "all cubes, 2D/3D shapes, pixel selections, serial and pooled execution",
  "Tests clean a single 1D spectrum or check that the cube tool runs.",
  [RM, C3], [("scatter/gather over pixels", f"{RM}:do_rmclean_hogbom"), ("per-pixel cleaner", f"{RM}:RMcleaner")], ["cleanFDF, ccArr, iterCountArr, residFDF"])
p("P10", "Faraday-depth peak measurement locates the true maximum",
  "The reported peak channel is the highest-amplitude channel excluding the two edge channels (and ignoring NaNs), and the fitted depth and amplitude are the vertex of the parabola through that channel and its two neighbours. The result follows a shift or rescaling of the depth axis or amplitude, and at an exact parabola returns its vertex; a vertex outside the depth range is reported as NaN rather than as a detection.",
  ["inputs"], "all spectra and uniform depth grids within the bound",
  "Ties, edges and NaNs are not sampled by tests.",
  [RM, MISC], [("peak search", f"{RM}:measure_FDF_parms"), ("vertex formula", f"{MISC}:calc_parabola_vertex")], ["phiPeakPIchan, phiPeakPIfit, ampPeakPIchan, ampPeakPIfit"])
p("P11", "Polarisation angles are half the phase, wrapped, and derotate correctly",
  "The reported angle at the peak is half the complex phase of the spectrum there in degrees within [0,180); the derotated intrinsic angle is that angle minus peak depth times lambda_0^2 (in degrees), wrapped to [0,180). Adding pi to every input phase leaves the angle shifted by 90 degrees modulo 180.",
  ["inputs"], "all complex spectra, peak depths and reference wavelengths",
  "Angle wrapping depends on quadrant and multiple turns; tests see one source.",
  [RM], [("angle formulas", f"{RM}:measure_FDF_parms")], ["polAngle*, polAngle0* outputs"])
p("P12", "Peak uncertainties and bias correction follow the published formulas",
  "Signal-to-noise is amplitude over the theoretical noise; depth error is FWHM/(2 SNR); angle error is 1/(2 SNR) rad; the derotated-angle error follows Brentjens & de Bruyn (2005) eq. A.20 with the sample variance of lambda^2 over good channels; the amplitude is bias-corrected to sqrt(P^2 - 2.3 sigma^2) exactly when SNR is at least 5. If no noise is supplied the robust (MAD) noise estimate of the spectrum is used instead, taken more than two FWHM (whole channels) from the peak, or over the whole spectrum when that leaves less than 30% of it.",
  ["inputs"], "all spectra, noise levels, wavelengths and thresholds",
  "Branches around SNR 5 and missing noise are not sampled.",
  [RM], [("error formulas", f"{RM}:measure_FDF_parms")], ["dPhiPeak*, dPolAngle*, snrPIfit, ampPeakPIfitEff, dFDFcorMAD"])
p("P13", "Stokes I models evaluate consistently and survive reference-frequency change",
  "A Stokes I model with coefficients (highest power first) evaluates to the polynomial in frequency over reference frequency (linear mode) or to the corresponding log-space power law (log mode). Re-expressing a fitted model at a new reference frequency leaves its value at every frequency unchanged, reports the new reference frequency, and gives parameter errors equal to first-order propagation of the coefficient covariance through the change of variables.",
  ["inputs"], "all coefficients, orders up to 5, both fit functions, all positive frequencies and covariances",
  "Tests check a few numeric cases of low order.",
  [MISC], [("model evaluation", f"{MISC}:calculate_StokesI_model, poly5, powerlaw_poly5"), ("renormalisation", f"{MISC}:renormalize_StokesI_model")], ["model values, params, perror, reference frequency"])
p("P14", "Fractional spectra are Q/I and U/I with first-order errors and honest flags",
  "The fractional spectra are Q and U, and their errors, divided by the Stokes I model at the same channel; a channel where that is not finite is NaN. The model is the fitted one, or the supplied one (status 0), or a flat unit model with failure status 9 when the fit fails; the status carries +128 exactly when the model is negative in some channel and +64 exactly when it is below the Stokes I error in some channel.",
  ["inputs"], "all spectra, errors and NaN patterns within the bound, arbitrary fitted models",
  "Combination of flags and error terms is not sampled by tests.",
  [MISC], [("division and flags", f"{MISC}:create_frac_spectra")], ["qArr, uArr, dqArr, duArr, fit status"])
p("P15", "Stokes I fitting bookkeeping: channels, order choice, statistics",
  "The fit is given exactly the non-NaN channels with frequency scaled by the reported reference frequency, its degrees of freedom and reduced chi-squared count only those channels, and AIC is chi^2 + 2*(order+1). With automatic order selection, orders are tried upward from zero and the last one that lowered the AIC is returned.",
  ["inputs", "fault_sequences"], "all spectra, NaN patterns, orders and every outcome of the underlying optimiser (including failure)",
  "Optimiser failure and flag patterns are not covered by tests.",
  [MISC], [("fit wrapper", f"{MISC}:fit_StokesI_model, fit_spec_poly5"), ("order selection", f"{MISC}:create_frac_spectra")], ["FitResult fields"])
p("P16", "FITS linear axes are read with the length and values the header declares",
  "For every header the axis vector has exactly NAXISn entries with entry k equal to CRVAL + (k + 1 - CRPIX)*CDELT, for increments of either sign and any magnitude. The depth axis written to output cubes therefore reads back equal to the depth grid used for synthesis.",
  ["inputs"], "all CRVAL, CRPIX, CDELT of either sign and all axis lengths within the bound, under IEEE rounding",
  "Off-by-one from floating-point rounding needs specific increment/length pairs.",
  [RM, S3, C3, "RMtools_3D/make_freq_file.py"], [("axis construction", f"{RM}:fits_make_lin_axis"), ("frequency arrays from headers", "RMtools_3D/make_freq_file.py:get_freq_array"), ("depth axis in output header", f"{S3}:writefits")], ["axis vectors"])
p("P17", "Cubes are read and written with axes where the header says they are",
  "Reading a cube puts the frequency (or Faraday-depth) axis first with sky axes in [y, x] order whichever FITS axis carries it, dropping degenerate axes. Writing then reading a cube through the tools returns every sample at the same depth and pixel, with the header's spectral axis describing it.",
  ["inputs", "configurations"], "all cube values and sizes within the bound; spectral axis in any position; 2, 3 and 4 axis headers",
  "Tests use one header layout.",
  [S3, C3, "RMtools_3D/do_fitIcube.py", "RMtools_3D/RMpeakfit_3D.py"], [("reading", f"{S3}:readFitsCube, find_freq_axis; {C3}:read_FDF_cube"), ("writing", f"{S3}:writefits; {C3}:writefits")], ["data arrays and headers of FITS files"])
p("P18", "Splitting a cube into chunks and reassembling it is the identity",
  "For every image size and chunk size, the chunk files together contain every pixel of the cube exactly once, no chunk exceeds the requested number of pixels per plane, and assembling the chunks in order reproduces the original cube, including when the image fits in a single chunk or the last chunk is partial.",
  ["inputs", "configurations"], "all image widths, heights, depths and chunk sizes within the bound, arbitrary pixel values",
  "Boundary arithmetic between chunk size and image size has many cases; no test covers it.",
  ["RMtools_3D/create_chunks.py", "RMtools_3D/assemble_chunks.py"], [("splitting", "RMtools_3D/create_chunks.py:main"), ("joining", "RMtools_3D/assemble_chunks.py:main")], ["chunk files and the assembled file"])
p("P19", "Region extraction keeps exactly the requested pixels and their coordinates",
  "Extracting a pixel box from a 2, 3 or 4 axis image returns exactly the samples inside the documented inclusive limits, and the output header assigns each retained sample the same world coordinate it had in the input. A limit of -1 means the edge of the image, and limits beyond the image are clipped to it.",
  ["inputs", "configurations"], "all image sizes, box limits and header reference values within the bound",
  "Off-by-one mistakes at box edges need specific limits; no test covers the tool.",
  ["RMtools_3D/extract_region.py"], [("slicing and CRPIX update", "RMtools_3D/extract_region.py:main")], ["output FITS data and header"])
p("P20", "Cube Stokes I fitting puts every pixel's model where the pixel is",
  "The model cube, coefficient and error maps, covariance maps and reference-frequency map hold, at each fitted pixel, the values obtained by fitting that pixel's spectrum alone; pixels excluded by the source mask hold NaN in all of them, and the maps carry the sky (and, for the cube, frequency) axes of the input. The threshold mask and per-channel noise follow the documented rules.",
  ["inputs", "schedules"], "all cubes within the bound, arbitrary fit results per pixel, serial or pooled map order",
  "Index transpositions are invisible on square symmetric test images.",
  ["RMtools_3D/do_fitIcube.py"], [("per-pixel fit and scatter", "RMtools_3D/do_fitIcube.py:make_model_I, fit_spectra_I"), ("noise and mask", "RMtools_3D/do_fitIcube.py:cube_noise")], ["model cube and coefficient maps"])
p("P21", "Rescaling 3D Stokes I models moves each pixel to the common frequency",
  "For every pixel the rescaled coefficient maps describe the same Stokes I spectrum as the input maps, re-expressed at the reference frequency corresponding to the given lambda_0^2 (frequency = c/lambda_0), and pixels map one-to-one to the same positions in the output. Pixels without a model stay NaN.",
  ["inputs"], "all coefficient, covariance and reference-frequency maps within the bound",
  "No test runs the tool.",
  ["RMtools_3D/rescale_I_model_3D.py", MISC], [("pixelwise rescale", "RMtools_3D/rescale_I_model_3D.py:rescale_I_model_3D, rescale_I_pixel")], ["rescaled maps"])
p("P22", "QU-fitting models implement the published depolarisation laws",
  "Each bundled model returns the complex fractional polarisation of its cited law (thin components, external dispersion, Burn slabs, internal dispersion) for every parameter set and wavelength. Multi-component models are the sum of their single-component models, and each law reduces to the Faraday-thin law when its dispersion is zero.",
  ["inputs"], "all parameter values and wavelengths",
  "Tests only check that sampling runs on one spectrum.",
  ["RMtools_1D/models_ns/m1.py", "RMtools_1D/models_ns/m2.py", "RMtools_1D/models_ns/m3.py", "RMtools_1D/models_ns/m4.py", "RMtools_1D/models_ns/m5.py", "RMtools_1D/models_ns/m6.py", "RMtools_1D/models_ns/m7.py", "RMtools_1D/models_ns/m11.py", "RMtools_1D/models_ns/m12.py", "RMtools_1D/models_ns/m111.py"],
  [("model functions", "RMtools_1D/models_ns/m*.py:model"), ("constraint converters", "RMtools_1D/models_ns/m*.py:converter")], ["model output"])
p("P23", "Synthetic spectra obey the same physics as the fitting models",
  "Simulated fractional and absolute spectra of Faraday-thin, externally dispersed and internally depolarised components equal the sum of the per-component laws at each frequency, with Stokes I a power law through the given flux at the given frequency and Q, U equal to fraction times I. Array-valued and list-valued component parameters are equivalent, and subtracting the thin model from its own spectrum leaves zero.",
  ["inputs"], "all component parameters, component counts within the bound and frequencies",
  "Only one of these generators is exercised by tests.",
  [MISC], [("generators", f"{MISC}:create_pqu_spectra_*, create_IQU_spectra_*, create_pqu_resid_RMthin")], ["returned spectra"])
p("P24", "QU-fitting likelihood and fit statistics are those of Gaussian errors",
  "The log-likelihood of a parameter set is -chi^2/2 plus a term that depends only on the data errors, where chi^2 sums the squared normalised residuals of Q and of U over the unflagged values (a channel with only one of the two flagged still contributes the other); the reported chi-squared is the same sum at the reported parameters. The reported degrees of freedom (number of unflagged Q and U values minus free parameters minus one), reduced chi-squared, AIC = 2k - 2 ln L, AICc = AIC + 2k(k+1)/(n-k-1) and BIC = k ln n - 2 ln L follow from the maximum likelihood, the number of free parameters k and the number n of values used. Reported parameters are the posterior medians with their upper and lower errors; a periodic 0-180 degree angle is summarised on the circle and reported in [0, 180). The .json and .dat files carry the same entries.",
  ["inputs"], "all spectra, errors, NaN flags and model parameters within the bound",
  "The tests only check that the sampler terminates.",
  ["RMtools_1D/do_QUfit_1D_mnest.py"], [("likelihood", "RMtools_1D/do_QUfit_1D_mnest.py:lnlike_call.log_likelihood"), ("chi-squared", "RMtools_1D/do_QUfit_1D_mnest.py:chisq_model")], ["log-likelihood, chiSq"])
p("P25", "Complexity metrics measure residual scatter after removing the peak",
  "The complexity measurement subtracts from q and u a Faraday-thin component with the measured fraction, angle and depth, normalises by the channel errors, and derives its excess-scatter estimate from the Gaussian likelihood of extra variance under a 1/sigma prior: the reported value is the median (50 per cent point) of the cumulative distribution and the errors run to its 15.72 and 84.27 per cent points. Percentiles are read from a cumulative distribution by linear interpolation, so that they are monotonic in the percentile. The combined metric is the excess scatter estimated jointly from the q and u residuals.",
  ["inputs"], "all residual spectra and cumulative distributions within the bound",
  "Tests compare one reference value.",
  [RM], [("residuals", f"{RM}:measure_qu_complexity"), ("extra-variance likelihood", f"{RM}:calc_sigma_add"), ("percentile lookup", f"{RM}:cdf_percentile")], ["sigmaAdd* outputs"])
p("P26", "Faraday-depth sampling of the 1D and 3D tools",
  "The depth grid always has an odd number of channels, is symmetric with zero exactly in the centre, has spacing equal to the requested (or FWHM/nSamples) spacing and reaches the requested maximum to within half a channel; defaults follow from the wavelength coverage (FWHM 3.8/range; maximum sqrt(3)/largest lambda^2 gap with the documented floor). The 1D and 3D tools build the same grid from the same settings.",
  ["inputs", "configurations"], "all frequency sets, spacings, maxima and sample counts within the bound",
  "Rounding of the channel count needs specific ratios.",
  [S1, S3], [("grid construction", f"{S1}:run_rmsynth; {S3}:run_rmsynth")], ["phiArr_radm2"])
p("P27", "Channel weights and theoretical noise",
  "Variance weighting weights each channel by 1/sigma^2 with sigma the mean of the Q and U errors (the supplied noise in 3D), uniform weighting by 1; channels whose Q or U is flagged, and under variance weighting those with NaN errors, carry no weight in the reported quantities. The reported theoretical noise is sqrt(sum(w^2 sigma^2))/sum(w) over the used channels, expressed in the same units as the reported spectrum.",
  ["inputs", "configurations"], "all error vectors (NaNs included), both weightings, with and without Stokes I",
  "NaN errors and unit conversions are not sampled.",
  [S1, S3], [("weights and dFDFth", f"{S1}:run_rmsynth; {S3}:run_rmsynth")], ["weightArr, dFDFth"])
p("P28", "1D pipeline: reported flux-unit spectrum is synthesis of q,u times model I",
  "The dirty spectrum reported by the 1D tool is the synthesis of the fractional spectra multiplied by the Stokes I model at the reference frequency c/lambda_0 (in super-resolution mode, where lambda_0 is zero, the reference frequency of the Stokes I model), and the reported intensity, fractional polarisation, peak parameters, channel counts and frequencies are those of that spectrum and model. Column layouts with and without Stokes I are interpreted as documented.",
  ["inputs", "configurations"], "all input spectra within the bound, 5- and 7-column layouts, arbitrary Stokes I models",
  "One spectrum with one reference output is tested.",
  [S1], [("pipeline", f"{S1}:run_rmsynth")], ["mDict, aDict"])
p("P29", "3D pipeline: cubes match per-pixel synthesis and moment maps match the cube",
  "The 3D tool's dispersion cube is the per-pixel synthesis of Q/I, U/I times the per-pixel Stokes I at the reference frequency (or of Q, U when no model is given). Images keep their axes, also when one pixel wide. The peak-intensity map is the maximum amplitude over depth, the peak-depth map is the depth where it occurs, and pixels blank at all depths stay blank in both.",
  ["inputs", "configurations"], "all cubes within the bound, with and without Stokes I model, NaN pixels",
  "Tests only check that the tool runs and one peak pixel.",
  [S3], [("pipeline", f"{S3}:run_rmsynth"), ("peak maps", f"{S3}:create_peak_maps")], ["FDF cube, maximum maps"])
p("P30", "Cube peak fitting equals 1D peak measurement at every pixel",
  "Each output map of the cube peak-fitting tool holds, at every pixel, the value the 1D measurement gives for that pixel's spectrum, at the same position; blank spectra give NaN and never abort the run. The frequency-dependent inputs (lambda_0^2, number of channels, noise) are passed to every pixel. The companion files (real, imaginary, RMSF width) are the ones beside the named one, whatever the directory and prefix are called.",
  ["inputs"], "all cubes within the bound including NaN pixels",
  "Square images and single sources hide transposition and propagation mistakes.",
  ["RMtools_3D/RMpeakfit_3D.py"], [("pixel loop", "RMtools_3D/RMpeakfit_3D.py:pixelwise_peak_fitting")], ["output maps"])
p("P31", "1D output files read back to the arrays that were written",
  "Everything the 1D synthesis tool saves (dispersion function, RMSF, weights, summary) is read back by the 1D clean tool as the same arrays and values; input spectra files with 5 or 7 columns are read in column order. The summary files hold the reported value under each key.",
  ["inputs"], "all arrays of any length within the bound",
  "Round trip is only exercised on one data set and its content not compared.",
  [S1, C1], [("writing", f"{S1}:saveOutput; {C1}:saveOutput"), ("reading", f"{S1}:readFile; {C1}:readFiles")], ["files on disk"])
p("P32", "Clean-component model spectra invert RM synthesis",
  "The Q, U model predicted from clean components at any frequency f is I(f)/I(f0) times the sum of the (flux unit) components times exp(2i*phi*(lambda^2 - lambda_0^2)), with I the Stokes I model the synthesis recorded (its polynomial kind, coefficients and reference frequency f0), so that dividing the prediction by the Stokes I model and synthesising it again reproduces each component times the RMSF. The saved table holds frequency, I, Q, U in that order.",
  ["inputs"], "all component lists, depths, frequencies and Stokes I models within the bound",
  "No test covers the tool.",
  ["RMtools_1D/clean_model.py"], [("model", "RMtools_1D/clean_model.py:calculate_QU_model")], ["predicted QU"])
p("P33", "Stand-alone RMSF diagnostics agree with the synthesis tools",
  "The stand-alone RMSF calculator reports, for the given channels and weights, the same RMSF that synthesis uses, with theoretical resolution 3.8/range, largest recoverable scale pi/min(lambda^2) and maximum depth sqrt(3)/median channel width in lambda^2; reported sidelobe statistics are those of the computed RMSF. Channels and weights are those of the command line (range and spacing, or table columns), whatever number format the table uses.",
  ["inputs"], "all channel sets, widths and weights within the bound",
  "No test compares values.",
  ["RMtools_1D/calculate_RMSF.py"], [("diagnostics", "RMtools_1D/calculate_RMSF.py:determine_RMSF_parameters")], ["returned parameters"])
p("P34", "Second moment of clean components is the weighted spread",
  "The reported second moment of a spectrum is the square root of the amplitude-weighted variance of Faraday depth about the amplitude-weighted mean, so it is invariant under shifting the depth axis and rescaling the amplitudes and scales with the depth unit; a single component gives zero.",
  ["inputs"], "all complex spectra and depth axes within the bound",
  "Checked on one spectrum only.",
  [MISC, RM], [("moment", f"{MISC}:calc_mom2_FDF"), ("use", f"{RM}:measure_fdf_complexity")], ["mom2 outputs"])
p("P35", "Robust statistics ignore NaNs and follow their definitions",
  "The median absolute deviation noise estimate is median(|x - median(x)|)/0.6745 over the non-NaN values, along the requested axis; the summary statistics (mean, median, standard deviation, MAD, extrema, total, pixel counts) of any array are those of its unmasked finite values.",
  ["inputs"], "all arrays and NaN patterns within the bound",
  "NaN patterns and even/odd counts are not sampled by tests.",
  [MISC], [("MAD", f"{MISC}:MAD"), ("summary", f"{MISC}:calc_stats, nanmedian, nanmean, nanstd")], ["returned statistics"])
p("P36", "Bandwidth-depolarisation synthesis inverts channel-averaged rotation",
  "The channel rotation operator is the average of exp(2i*phi*c^2/f^2) over the top-hat channel, so it is 1 at zero depth and conjugates under change of sign of depth; the adjoint synthesis applies its conjugate with the same weights, normalisation and flagging as standard synthesis, and the theoretical sensitivity and noise follow from the same operator. The reported RMSF lies on the returned depth axis. The peak is located on the spectrum corrected for sensitivity and measured with the noise at its depth. The tool accepts tables with or without Stokes I and with or without channel widths, reports flux with the Stokes I model at the reference frequency, and counts and uses only unflagged channels; the prediction tool shows the sensitivity and noise (largest = 1) of the same operator at the requested depths and sampling.",
  ["inputs"], "all spectra, weights, NaN flags, depths and channel widths within the bound",
  "No value-level test exists.",
  ["RMtools_1D/rmtools_bwdepol.py", "RMtools_1D/rmtools_bwpredict.py"], [("operator", "RMtools_1D/rmtools_bwdepol.py:rotation_operator, analytical_chan_pol"), ("adjoint", "RMtools_1D/rmtools_bwdepol.py:do_adjoint_rmsynth_planes, adjoint_theory")], ["FDF, sensitivity, noise curves"])
p("P37", "1D extraction from FITS uses the requested pixel of both cubes",
  "Running 1D synthesis from FITS cubes uses, for every channel, the Q, U (and, if requested, Stokes I) value at the sky pixel nearest the requested position (or the given pixel, counted from 1), in [frequency] order matching the frequency list, whether or not the cubes carry a degenerate Stokes axis; non-finite samples become blanks, and positions outside the image, on any side, and pixels where both Q and U are zero are refused. The options reach the synthesis, and outputs are saved beside the first cube.",
  ["inputs"], "all cube sizes and pixel positions within the bound",
  "No test covers the tool.",
  ["RMtools_1D/do_RMsynth_1D_fromFITS.py"], [("extraction", "RMtools_1D/do_RMsynth_1D_fromFITS.py:get_data_Q_U")], ["spectra handed to synthesis"])
p("P38", "Header manipulation keeps the remaining axes intact",
  "Removing degenerate or excess axes from a header (and data) leaves exactly the requested number of axes, with every keyword of the kept axes unchanged and no keyword of removed axes left behind (including rotations and PC/CD matrices); the data keeps its leading sky planes and neither input is modified when stripping. Beam parameters are found wherever the header documents them (cards, else the last AIPS CLEAN history entry), and the beam area is that of the Gaussian in pixels.",
  ["inputs", "configurations"], "all headers with 2-5 axes, values symbolic",
  "Tests use a single header.",
  [UF, MISC, "RMtools_3D/RMpeakfit_3D.py"], [("axis stripping", f"{UF}:strip_fits_dims; {MISC}:remove_header_third_fourth_axis; RMtools_3D/RMpeakfit_3D.py:delete_FITSheader_axis"), ("beam", f"{UF}:get_beam_from_header, get_beam_area")], ["headers, data"])
p("P39", "1D and 3D RM-CLEAN tools apply thresholds in the documented units",
  "In the 1D tool a negative cutoff is taken as that many times the theoretical noise and a positive one as an absolute flux, and likewise for the window threshold (the 3D tool takes both in flux units, and reads the companion files beside the named ones, whatever the directory and prefix are called); no window threshold means no windowed clean. The cleaned spectra passed on and saved are those of the clean at that threshold, with the original depth axis, RMSF and reference wavelength. Reported clean peak parameters are measured on the restored spectrum, with the reported cutoff, iteration count and component second moment those of that clean, and observed errors the theoretical ones scaled by the measured to theoretical noise ratio.",
  ["inputs", "configurations"], "all spectra, noise values and cutoffs within the bound",
  "Only one cutoff is tested.",
  [C1, C3], [("threshold handling", f"{C1}:run_rmclean; {C3}:run_rmclean")], ["mDict/aDict of clean, cleaned cubes"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
