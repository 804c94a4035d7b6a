"""Source of properties.jsonl and MANIFEST.json (run gen_meta.py)."""
ST = "turbustat/statistics/"
NOT_APPLICABLE = []
PROPS = []


def P(id, title, statement, quant, why, files, mech, technique, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant,
                      why=why, files=files, mech=mech, technique=technique,
                      **kw))


P("P04", "Fourier amplitudes and radial averages match their definitions",
  "For any real 2D or 3D array the full Fourier amplitude grid built from "
  "half-plane transforms equals the amplitude of the complete discrete "
  "Fourier transform, for odd and even axes and with either FFT backend. "
  "Radial profiles of a 2D power grid are, for any binning, spacing, "
  "averaging function or angular wedge, the statistic of exactly the finite "
  "samples whose spatial frequency lies in each annulus, with the matching "
  "sample standard deviation.",
  "every real array of any shape, every binning option and every angular "
  "wedge",
  "The tests compare a handful of fixed shapes, mostly square, and look at "
  "fitted slopes rather than bin membership.",
  [ST + "rfft_to_fft.py", ST + "psds.py"],
  [("rfft_to_fft", ST + "rfft_to_fft.py"), ("pspec", ST + "psds.py"),
   ("make_radial_arrays, make_radial_freq_arrays", ST + "psds.py")],
  "dense-DFT and per-annulus reference models over generated arrays and "
  "binning options")

P("P05", "The image power spectrum is the weighted, apodized Fourier power",
  "For any image, weights, apodization, zero padding and beam correction, "
  "the two-dimensional spatial power spectrum is the squared Fourier "
  "amplitude of the NaN-filled, weighted and windowed image, divided by the "
  "beam's and window's power where these corrections are requested. The "
  "one-dimensional spectrum is its annular mean with the annular standard "
  "deviation at frequencies given per pixel. Periodic shifts, sign changes "
  "and half-turns leave it unchanged and scaling the image scales it by the "
  "square.",
  "all images (odd, even, non-square, with NaNs), weights and options",
  "The tests use two fixed maps and compare to stored numbers or loosely to "
  "an input slope.",
  [ST + "pspec_bispec/pspec.py", ST + "base_pspec2.py"],
  [("PowerSpectrum.compute_pspec", ST + "pspec_bispec/pspec.py"),
   ("StatisticBase_PSpec2D.compute_radial_pspec", ST + "base_pspec2.py")],
  "reference model and metamorphic relations")

P("P06", "VCA power is channel-summed; channel rebinning averages channels",
  "The two-dimensional VCA spectrum of any cube is proportional to the sum "
  "over velocity channels of each channel's spatial Fourier power (after the "
  "requested apodization and beam correction), and does not depend on the "
  "order of channels. Changing the channel width by an integer number of "
  "channels replaces each block of consecutive channels by its average (or "
  "the requested function), whatever spectral unit the width is given in, "
  "and regridding keeps the velocity coverage.",
  "all cubes, channel counts, channel widths and spectral units",
  "The tests use one fixed cube, two channel widths and stored values.",
  [ST + "vca_vcs/vca.py", ST + "vca_vcs/slice_thickness.py"],
  [("VCA.compute_pspec", ST + "vca_vcs/vca.py"),
   ("spectral_regrid_cube", ST + "vca_vcs/slice_thickness.py")],
  "reference model, differential and metamorphic relations")

P("P07", "VCS is the spectral-axis Fourier power of the cube",
  "For any cube the VCS spectrum at each spectral frequency is the 3D "
  "Fourier power summed over all spatial frequencies, normalised by the "
  "number of spectra containing data, at frequencies per pixel or per "
  "velocity consistent with the channel width. It does not depend on the "
  "sign or origin of the velocity axis or on the arrangement of spectra on "
  "the sky, and fitting a spectrum that is an exact broken power law "
  "returns its two slopes.",
  "all cubes, channel widths, breaks and fit limits",
  "The tests use one fixed cube and stored values.",
  [ST + "vca_vcs/vcs.py"],
  [("VCS.compute_pspec", ST + "vca_vcs/vcs.py"),
   ("VCS.fit_pspec", ST + "vca_vcs/vcs.py")],
  "dense-DFT reference model and metamorphic relations")

P("P08", "MVC spectrum is the modified-centroid combination",
  "For any centroid, integrated-intensity and line-width maps the modified "
  "velocity centroid spectrum is the squared difference between the Fourier "
  "amplitude of the intensity-weighted centroid and the mean square velocity "
  "times the Fourier amplitude of the intensity. Pixels undefined in any of "
  "the three maps contribute nothing, the maps must share one shape, and "
  "scaling the intensity scales the spectrum by the square.",
  "all triples of maps with any missing pixels and windows",
  "The tests use one fixed triple of maps and stored values.",
  [ST + "mvc/mvc.py"],
  [("MVC.compute_pspec", ST + "mvc/mvc.py")],
  "dense-DFT reference model and metamorphic relations")

P("P09", "Power-law fits are least squares on exactly the requested range",
  "For every spatial power-spectrum statistic the fitted slope, its standard "
  "error and the model are those of the (weighted) least-squares line "
  "through the logarithms of exactly the spectrum points between the "
  "requested cut-offs, whatever unit the cut-offs are given in. An image "
  "whose power is an exact power law returns its index; bootstrapped errors "
  "are positive and leave the slope unchanged.",
  "all images, fit ranges, frequency units and weighting choices",
  "The tests check slopes of a few fixed maps.",
  [ST + "base_pspec2.py", ST + "fitting_utils.py"],
  [("StatisticBase_PSpec2D.fit_pspec", ST + "base_pspec2.py"),
   ("clip_func, residual_bootstrap", ST + "fitting_utils.py")],
  "independent least-squares oracle over generated spectra")

P("P10", "Broken-line fits find breaks and report consistent slopes",
  "For data lying on a broken line the segmented fit, started near the "
  "break, recovers the break and both slopes; for any data its reported "
  "slopes, errors and continuous model are the (weighted) least-squares "
  "solution at the reported break, or of the straight line when no break is "
  "kept. Non-finite points and their weights have no influence, and "
  "starting breaks outside the data, non-finite weights or too few points "
  "are refused.",
  "all x, y, weights, starting breaks and missing points",
  "The tests fit one fixed pair of slopes.",
  [ST + "lm_seg.py", ST + "base_pspec2.py"],
  [("Lm_Seg.fit_model", ST + "lm_seg.py"), ("Lm_Seg.model",
                                            ST + "lm_seg.py")],
  "recovery, least-squares oracle and metamorphic relations")

P("P12", "Apodizing windows match their closed forms",
  "Every apodizing window, for any shape and any fractions, is the radial "
  "split cosine bell of its definition about the array centre: one inside "
  "the inner radius, zero outside the taper, within [0, 1] everywhere and "
  "symmetric. The windows applied by the power-spectrum statistics are these "
  "windows.",
  "all window kinds, shapes and taper fractions",
  "The tests check a few window shapes at fixed fractions.",
  [ST + "apodizing_kernels.py", ST + "base_pspec2.py"],
  [("SplitCosineBellWindow and its subclasses",
    ST + "apodizing_kernels.py"),
   ("StatisticBase_PSpec2D.apodizing_kernel", ST + "base_pspec2.py")],
  "closed-form oracle")

P("P11", "Elliptical power-law fits recover index, ellipticity and angle",
  "For any two-dimensional power spectrum that is an elliptical power law "
  "inside the fit limits, the 2D fit returns the index, the axis ratio (in "
  "(0, 1]), the angle (modulo a half turn) and the amplitude that generated "
  "it, whatever lies outside the limits, with one positive error per free "
  "parameter. With fixed ellipticity it fits an isotropic power law. "
  "Bootstrapping uses the same weights and changes the errors, not the "
  "solution, and limits that leave no point are refused.",
  "all index, ellipticity, angle, amplitude and limit combinations",
  "The tests fit one simulated map and check a loose tolerance.",
  [ST + "elliptical_powerlaw.py", ST + "base_pspec2.py"],
  [("fit_elliptical_powerlaw", ST + "elliptical_powerlaw.py"),
   ("StatisticBase_PSpec2D.fit_2Dpspec", ST + "base_pspec2.py")],
  "exact-recovery and closed-form oracles")

P("P13", "The spectral correlation function compares shifted spectra",
  "For any cube and set of lags (including fractional lags and lags in "
  "angular or physical units) each point of the SCF surface is the average "
  "over pixels of one minus the root of the normalised squared difference "
  "between the cube and its shifted copy. Zero lag gives one, the surface "
  "is point symmetric, and it does not change when the cube is scaled or "
  "its channels reordered. Its radial spectrum is the annular mean and its "
  "fitted slope the least-squares slope in the requested range.",
  "all cubes, lag sets, boundary treatments and fit limits",
  "The tests use one fixed cube and stored values.",
  [ST + "scf/scf.py"],
  [("SCF.compute_surface", ST + "scf/scf.py"),
   ("SCF.compute_spectrum, fit_plaw, fit_2Dplaw", ST + "scf/scf.py")],
  "per-lag reference model and metamorphic relations")

P("P14", "Delta-variance is the weighted variance of the filtered map",
  "For any image, weights and lags the delta-variance at each lag is the "
  "weighted variance of the image filtered with the core-minus-annulus "
  "kernel of that lag and diameter ratio, with weights filtered alike. It "
  "is unchanged by adding a constant (with periodic boundaries), by flips "
  "and transposes, scales with the square of the image, does not depend on "
  "which other lags are computed, and its fitted slope is the weighted "
  "least-squares slope over exactly the requested lags.",
  "all images, weights, lags (in any unit), boundaries and fit limits",
  "The tests use two fixed maps and stored values.",
  [ST + "delta_variance/delta_variance.py",
   ST + "delta_variance/kernels.py"],
  [("DeltaVariance.compute_deltavar",
    ST + "delta_variance/delta_variance.py"),
   ("core_kernel, annulus_kernel", ST + "delta_variance/kernels.py"),
   ("DeltaVariance.fit_deltavar", ST + "delta_variance/delta_variance.py")],
  "direct-convolution reference model and metamorphic relations")

P("P15", "The wavelet transform is the mean positive wavelet response",
  "For any image and scales (in any unit) the transform at each scale is "
  "the mean of the positive coefficients of the image convolved with the "
  "Mexican-hat wavelet of that scale, with the standard error over those "
  "coefficients, normalised by the scale unless told otherwise. Flips, "
  "transposes and brightness scaling act on it as they do on the image, "
  "scales do not influence each other, and the fitted slope is the "
  "(weighted) least-squares slope of the logged transform over exactly the "
  "requested scales, with breaks from the segmented fit. Scales below a "
  "pixel or above half the map are refused.",
  "all images, scale sets, units, boundaries and fit limits",
  "The tests use one fixed map and stored values.",
  [ST + "wavelets/wavelet_transform.py"],
  [("Wavelet.compute_transform, make_1D_transform",
    ST + "wavelets/wavelet_transform.py"),
   ("Wavelet.fit_transform", ST + "wavelets/wavelet_transform.py")],
  "direct-convolution reference model and metamorphic relations")

P("P16", "The bispectrum sums sampled triple products of the Fourier modes",
  "For any image, number of samples and seed each point of the bispectrum "
  "is the sum of the sampled products F(k1) F(k2) conj(F(k1+k2)) at its two "
  "wavenumber lengths, the bicoherence is its modulus over the sum of the "
  "moduli (so within [0, 1]) and the tracker counts the samples. Scaling the "
  "image by c scales the bispectrum by c cubed and leaves the bicoherence, "
  "results repeat for equal seeds, and azimuthal and radial slices average "
  "the surface over exactly the requested ring or wedge.",
  "all images, sample counts, seeds and slices",
  "The tests use one fixed map and stored values.",
  [ST + "bispec/bispec.py"],
  [("Bispectrum.compute_bispectrum", ST + "bispec/bispec.py"),
   ("Bispectrum.azimuthal_slice, radial_slice", ST + "bispec/bispec.py")],
  "brute-force reference model and metamorphic relations")

P("P17", "The genus counts regions above minus regions below a threshold",
  "For any image, thresholds, smoothing radii (in any unit), minimum size "
  "and connectivity, the genus at a threshold is the number of connected "
  "regions of at least the minimum size above it minus the number below it, "
  "in the image smoothed with the Gaussian of that radius. Negating the "
  "image mirrors the curve, flips and transposes keep it, impossible radii "
  "or units are refused, and the analytic curve of a Gaussian field follows "
  "its formula.",
  "all images, thresholds, radii, minimum sizes and connectivities",
  "The tests use one fixed map and stored values.",
  [ST + "genus/genus.py"],
  [("Genus.make_smooth_arrays, make_genus_curve", ST + "genus/genus.py")],
  "flood-fill reference model and metamorphic relations")

P("P18", "The Cramer statistic compares two cubes' brightness samples",
  "For any two cubes the data matrices hold the brightest fraction of "
  "values of every channel (or the brightest spectra) above the noise "
  "limits, and the distance is the two-sample Cramer statistic over all "
  "pairs of their rows. It is zero for equal cubes, symmetric for cubes of "
  "equal size, independent of pixel and channel order, and for normalised "
  "data independent of the brightness scale.",
  "all pairs of cubes, fractions and noise limits",
  "The tests use one pair of cubes and stored values.",
  [ST + "cramer/cramer.py"],
  [("Cramer_Distance.format_data, cramer_statistic",
    ST + "cramer/cramer.py")],
  "pairwise-distance reference model and metamorphic relations")

P("P19", "PCA decomposes the channel covariance and fits sizes to line widths",
  "For any cube, with or without NaNs and mean subtraction, the covariance "
  "matrix holds the (co)variances of all pairs of channels over their "
  "common finite pixels; the eigenvalues and vectors decompose it in "
  "descending order and the number of components follows the requested "
  "rule. Eigenimages are channels weighted by the eigenvectors; spatial and "
  "spectral widths are the 1/e widths of the autocorrelations, corrected "
  "for noise and beam; and the size-line width relation is the "
  "orthogonal-distance fit over exactly the usable widths, with the "
  "corrected index and sonic length derived from it.",
  "all cubes, NaN patterns, component rules, widths and fit limits",
  "The tests use one NaN-free cube and stored values.",
  [ST + "pca/pca.py", ST + "pca/width_estimate.py", ST + "threeD_to_twoD.py",
   ST + "fitting_utils.py"],
  [("var_cov_cube", ST + "threeD_to_twoD.py"),
   ("PCA.compute_pca, eigimages, autocorr_images, autocorr_spec, fit_plaw",
    ST + "pca/pca.py"),
   ("WidthEstimate1D, WidthEstimate2D", ST + "pca/width_estimate.py")],
  "pairwise covariance, direct autocorrelation, exact-width and optimality "
  "oracles")

P("P20", "PDFs and cumulative distributions describe the kept values",
  "For any 1-3D array, threshold, weights, normalisation and bins, the PDF "
  "is the histogram of exactly the finite, weighted and normalised values "
  "above the threshold, integrating to one; the ECDF at a value is the "
  "fraction of data up to it; percentile queries agree with the sorted "
  "data, and running again gives the same result. Fits maximise the "
  "likelihood with any combination of fixed parameters. The Hellinger, KS "
  "and lognormal distances follow from the two samples over common bins, "
  "are symmetric, and vanish for equal data.",
  "all arrays, thresholds, weights, normalisations, bins and models",
  "The tests use two fixed maps and one lognormal sample.",
  [ST + "pdf/compare_pdf.py", ST + "stats_utils.py"],
  [("PDF.make_pdf, make_ecdf, find_percentile, fit_pdf",
    ST + "pdf/compare_pdf.py"),
   ("PDF_Distance", ST + "pdf/compare_pdf.py")],
  "counting, closed-form maximum-likelihood and metamorphic oracles")

P("P21", "Tsallis lag distributions and fits follow their definition",
  "For any image and lags (in any unit, rounded down to pixels) the lag map "
  "is the standardised difference between the mean of the four neighbours "
  "at that lag (periodic, or zero beyond the edges) and the pixel; its "
  "distribution is the log of the normalised histogram of the finite "
  "values; and the fitted parameters are the least-squares optimum of the "
  "Tsallis function with their curvature errors, reduced chi-squared and "
  "matching table. Impossible lags are refused.",
  "all images, lags, units, boundaries, bin counts and clipping levels",
  "The tests use one map and five lags.",
  [ST + "tsallis/tsallis.py"],
  [("Tsallis.make_tsallis, fit_tsallis", ST + "tsallis/tsallis.py")],
  "direct-neighbour reference model and optimality oracle")

P("P22", "Local moments are the weighted moments in every circular region",
  "For any image, weights, radius (in any unit, rounded down to pixels), "
  "boundary and minimum fraction, the maps hold the weighted mean, "
  "variance, skewness and excess kurtosis of the finite pixels within the "
  "circle around each pixel, NaN where too few are finite; the global "
  "moments and the histograms of the maps follow the same definitions. "
  "Flips, shifts, scaling and offsets act as they must, and impossible radii "
  "or fractions are refused.",
  "all images, weights, NaN patterns, radii and boundaries",
  "The tests compare histograms of one fixed map.",
  [ST + "stat_moments/highstatmoments.py"],
  [("StatMoments.compute_spatial_distrib, array_moments, "
    "make_spatial_histograms", ST + "stat_moments/highstatmoments.py")],
  "per-region reference model and metamorphic relations")

P("P23", "Dendrogram statistics count and compare the pruned structures",
  "For any image or cube, minimum heights and dendrogram parameters, the "
  "counts and peak values are those of all structures of the dendrogram "
  "pruned to each height, with or without periodic edges; counts never rise "
  "with height and do not change when periodic data are rolled or the data "
  "are flipped or scaled with the heights. The tail slope and its error are "
  "the least-squares fit from the break on, and the two distances (slopes "
  "and peak-value histograms) follow from them, are symmetric, and vanish "
  "for equal data. A saved dendrogram is loaded with its data and settings. "
  "Unordered heights or too few features are refused.",
  "all images, cubes, heights, dendrogram parameters and boundaries",
  "The tests use one pair of cubes with one set of heights.",
  [ST + "dendrograms/dendro_stats.py"],
  [("Dendrogram_Stats", ST + "dendrograms/dendro_stats.py"),
   ("Dendrogram_Distance", ST + "dendrograms/dendro_stats.py")],
  "differential test against astrodendro, least-squares oracle and "
  "metamorphic relations")

P("P24", "Moment maps and their errors follow the moment definitions",
  "For any cube, mask and noise level or noise cube, the zeroth, first and "
  "second moments, line width and integrated map are the moments of exactly "
  "the included voxels, and their errors are the propagated noise of those "
  "voxels, NaN where there are none. Writing the maps to FITS files, or as a "
  "dictionary, and reading them back preserves values and units; unusable "
  "noise levels and methods are refused.",
  "all cubes, masks, NaN patterns, velocity axes and units, noise levels",
  "The tests check one fixed cube without masks.",
  ["turbustat/moments/core.py", "turbustat/moments/_moment_errs.py"],
  [("Moments.make_moments, make_moment_errors, to_fits, to_dict, from_fits",
    "turbustat/moments/core.py"),
   ("moment0_error, moment1_error, moment2_error, linewidth_sigma_err",
    "turbustat/moments/_moment_errs.py")],
  "moment reference model, error propagation oracle and round trip")

P("P25", "Simulated fields have exactly the requested power law",
  "For any size, index, axis ratio, position angle and seed, the simulated "
  "image or 3D field has the requested shape, is real, has zero mean (for "
  "positive indices) and Fourier amplitudes proportional to the requested "
  "(elliptical) power law at every mode; the transforms it can return are "
  "those of the field; a field depends on its seed alone, its 3D "
  "form has the requested rms, and the random state of the caller is left "
  "alone. The 3D power spectrum averages the power in spherical shells. "
  "Impossible axis ratios are refused.",
  "all sizes (odd and even), indices, ellipses and seeds",
  "The tests check the fitted slope of a few fields.",
  ["turbustat/simulator/gen_field.py", "turbustat/simulator/threeD_pspec.py"],
  [("make_extended, make_3dfield", "turbustat/simulator/gen_field.py"),
   ("threeD_pspec", "turbustat/simulator/threeD_pspec.py")],
  "Fourier-amplitude oracle and metamorphic relations")

P("P26", "Simulated PPV cubes sum the lines of all cells",
  "For any velocity and density fields, line of sight, temperature, mass, "
  "length, velocity limits and channel width (in any unit), every spectrum "
  "of the PPV cube is the sum over its cells of Gaussian lines with the "
  "column density of the cell and the thermal plus gradient width, sampled "
  "at the channel centres, which evenly divide the velocity range; the "
  "result does not depend on the number of threads, is linear in density "
  "and follows velocity shifts and axis swaps, and the HDU header and the "
  "header helpers describe the data as requested. Negative densities, "
  "reversed limits, wrong units and too many channels are refused.",
  "all fields, axes, units, limits, channel widths and thread counts",
  "The tests check moments of one simulated cube.",
  ["turbustat/simulator/make_cube.py", "turbustat/simulator/spectrum.pyx",
   "turbustat/io/sim_tools.py"],
  [("make_ppv", "turbustat/simulator/make_cube.py"),
   ("generate_spectrum", "turbustat/simulator/spectrum.pyx"),
   ("create_cube_header, create_image_header", "turbustat/io/sim_tools.py")],
  "cell-by-cell reference model and metamorphic relations")

P("P27", "Slope distances compare the slopes of the two datasets",
  "For any two datasets, fit limits, breaks, weights and keyword sets (given "
  "once for both or separately for each), the power-spectrum, VCA, MVC, VCS, "
  "wavelet and delta-variance slope distances are the absolute difference of "
  "the slopes each dataset has on its own with those settings, divided by "
  "the quadrature sum of their errors. They are symmetric, zero for equal "
  "data, and the same whether data or already computed statistics are given.",
  "all pairs of datasets, settings and pre-computed statistics",
  "The tests compare one fixed pair with default settings to stored values.",
  [ST + "pspec_bispec/pspec.py", ST + "vca_vcs/vca.py",
   ST + "vca_vcs/vcs.py", ST + "mvc/mvc.py",
   ST + "wavelets/wavelet_transform.py",
   ST + "delta_variance/delta_variance.py"],
  [("PSpec_Distance", ST + "pspec_bispec/pspec.py"),
   ("VCA_Distance", ST + "vca_vcs/vca.py"),
   ("VCS_Distance", ST + "vca_vcs/vcs.py"),
   ("MVC_Distance", ST + "mvc/mvc.py"),
   ("Wavelet_Distance", ST + "wavelets/wavelet_transform.py"),
   ("DeltaVariance_Distance", ST + "delta_variance/delta_variance.py")],
  "distance formula on separately computed statistics, symmetry and "
  "identity relations")

P("P28", "Curve, surface and histogram distances follow their definitions",
  "For any two datasets and settings, the delta-variance curve distance, SCF "
  "surface distance, PCA eigenvalue distance, genus curve distance, "
  "bispectrum distances and statistical-moments distances are the documented "
  "norms of the difference between the normalised results each dataset has "
  "on its own over the common lags, sizes, components, thresholds or bins. "
  "They are symmetric, non-negative, zero for equal data, and the same "
  "whether data or already computed statistics are given. Incompatible "
  "settings are refused.",
  "all pairs of datasets (of different shapes and pixel sizes), settings and "
  "pre-computed statistics",
  "The tests compare one fixed pair with default settings to stored values.",
  [ST + "delta_variance/delta_variance.py", ST + "scf/scf.py",
   ST + "pca/pca.py", ST + "genus/genus.py", ST + "pspec_bispec/bispec.py",
   ST + "stat_moments/highstatmoments.py"],
  [("DeltaVariance_Distance", ST + "delta_variance/delta_variance.py"),
   ("SCF_Distance", ST + "scf/scf.py"), ("PCA_Distance", ST + "pca/pca.py"),
   ("Genus_Distance", ST + "genus/genus.py"),
   ("Bispectrum_Distance", ST + "pspec_bispec/bispec.py"),
   ("StatMoments_Distance", ST + "stat_moments/highstatmoments.py")],
  "distance formula on separately computed statistics, symmetry and "
  "identity relations")

P("P01", "Every documented input form gives the same results",
  "For any dataset, every statistic gives the same results whether the data "
  "come as an HDU, an HDU opened from a file, a (data, header) pair, an "
  "array with a separate header, or a spectral-cube object, with or without "
  "units, in any byte order or memory layout and with additional "
  "degenerate axes; weights and companion maps are taken in the same forms. "
  "Arrays without a header (where one is needed) and other objects are "
  "refused.",
  "all statistics, datasets and input forms",
  "The tests use HDUs and (data, header) tuples, with a few cases of other "
  "forms for input_data alone.",
  ["turbustat/io/input_base.py", ST + "base_statistic.py"],
  [("input_data", "turbustat/io/input_base.py"),
   ("BaseStatisticMixIn.data, header, input_data_header",
    ST + "base_statistic.py")],
  "differential test between input forms for all statistics")

ALLST = [ST + "base_statistic.py", ST + "base_pspec2.py",
         ST + "pspec_bispec/pspec.py", ST + "pspec_bispec/bispec.py",
         ST + "vca_vcs/vca.py", ST + "vca_vcs/vcs.py", ST + "mvc/mvc.py",
         ST + "wavelets/wavelet_transform.py",
         ST + "delta_variance/delta_variance.py", ST + "genus/genus.py",
         ST + "tsallis/tsallis.py", ST + "scf/scf.py", ST + "pca/pca.py",
         ST + "pdf/compare_pdf.py", ST + "stat_moments/highstatmoments.py",
         ST + "dendrograms/dendro_stats.py", ST + "cramer/cramer.py"]

P("P02", "Inputs of the caller are never modified",
  "Constructing, running, plotting or saving any statistic, computing any "
  "distance and calling any helper function leaves everything the caller "
  "passed in exactly as it was: data arrays, headers, weights, masks, cubes, "
  "lag and limit arrays, keyword dictionaries and already computed "
  "statistics' data. The same arguments can be used again with the same "
  "outcome.",
  "all statistics, distances and helper functions, for all input forms and "
  "options",
  "The tests do not look at their inputs after a call; each test loads its "
  "own.",
  ALLST + ["turbustat/io/input_base.py", ST + "stats_utils.py"],
  [("input_data(need_copy)", "turbustat/io/input_base.py"),
   ("run() of each statistic", ST + "base_statistic.py"),
   ("distance_metric() of each distance", ST + "pspec_bispec/pspec.py")],
  "fingerprints of all arguments before and after generated calls")

P("P29", "Saved results come back the same, without the data unless asked",
  "For any statistic, data and history of runs, saves and loads, "
  "save_results followed by load_results gives an object with the same "
  "results, units and settings as at the time of saving, in the file named "
  "(the extension .pkl is added when missing). The data are in the file only "
  "with keep_data=True, and saving leaves the object itself as it was and "
  "usable.",
  "all statistics, settings, file names and histories of save and load",
  "The tests save and load most statistics once and compare one attribute.",
  ALLST,
  [("BaseStatisticMixIn.save_results, load_results",
    ST + "base_statistic.py")],
  "round trip through files and model-based histories")

P("P30", "Results depend only on the data and the settings",
  "Any statistic or distance gives the same results every time it is "
  "computed with the same data and settings: re-running an object, running "
  "its steps one by one instead of run(), running it after other options, running other objects in between, and the global "
  "random state make no difference, and the global random state is left as "
  "it was (unless resampling or random phases are asked for; these follow "
  "the seed given or the global random state).",
  "all statistics and distances, all sequences of runs with any options, "
  "all random states",
  "Tests run each object once.",
  ALLST, [("run() of each statistic", ST + "base_statistic.py"),
          ("BiSpectrum.compute_bispectrum(seed)",
           ST + "pspec_bispec/bispec.py"),
          ("Cramer_Distance.format_data(seed)", ST + "cramer/cramer.py")],
  "stateful sequences of runs compared with a fresh object")

P("P31", "Plots show the results and change nothing",
  "For any statistic, data, settings and x-axis unit, running with verbose "
  "or calling the plotting method does not change the results; with "
  "save_name exactly that file is written and the figure is closed, and "
  "without it no file is. The plotted points, fitted line, residuals and fit "
  "limits are the statistic's results converted to the requested pixel, "
  "angular, physical or spectral unit (or wavenumber). Distances are the "
  "same with and without a plot.",
  "all statistics and distances, datasets, settings, units and file names",
  "Tests run with plots for a few statistics and look only at the results.",
  ALLST, [("PSpec plot_fit", ST + "base_pspec2.py"),
          ("DeltaVariance.plot_fit", ST + "delta_variance/delta_variance.py"),
          ("Wavelet.plot_transform", ST + "wavelets/wavelet_transform.py"),
          ("SCF.plot_fit", ST + "scf/scf.py"),
          ("VCS.plot_fit", ST + "vca_vcs/vcs.py"),
          ("PCA.plot_fit", ST + "pca/pca.py")],
  "differential test with and without plots, and the drawn curves against "
  "the results in independently converted units")

P("P03", "Pixel, angular, physical and spectral units are interchangeable",
  "For any grid and distance, every length, scale, lag, radius, beam size, "
  "frequency limit or break given to a statistic in angular or physical "
  "units gives the same result as the equivalent number of pixels, and "
  "results are reported in the units asked for with the same conversion; "
  "spectral limits and channel widths agree in velocity (or frequency) and "
  "channels. Distances convert with the pixel size of each dataset. Physical "
  "units without a distance, units of other kinds and values without the "
  "needed header are refused.",
  "all statistics with unit-bearing settings, all grids (rotated, "
  "anisotropic position, any pixel size), distances and units",
  "Tests mostly use pixels, and where they convert units use one header.",
  ALLST, [("BaseStatisticMixIn._to_pixel, _spatial_freq_unit_conversion, "
           "_physical_size, distance", ST + "base_statistic.py"),
          ("SpectralUnits", ST + "base_statistic.py"),
          ("check_fit_limits", ST + "fitting_utils.py")],
  "differential test of equivalent settings in independently converted "
  "units")

P("P32", "Shared numerical helpers follow their definitions",
  "For any input the shared helpers do what they say: standardisation and "
  "the other data normalisations, Hellinger and Kullback-Leibler "
  "divergences, common histogram bins, pixel-scale ratios, Fourier shifts, "
  "padding, kernel convolution, common fit limits and beam look-up follow "
  "their definitions; ellipse, least-squares and Bayesian line fits recover "
  "the ellipse or line behind the data with errors of the right size; and "
  "residual bootstrapping resamples all residuals with the weights of the "
  "fit.",
  "all arrays (with NaNs), widths, shifts, ellipses, lines, errors, limits "
  "and headers",
  "Only a few of the helpers have tests of their own, with single inputs.",
  [ST + "stats_utils.py", ST + "fitting_utils.py",
   ST + "convolve_wrapper.py", "turbustat/io/try_load_beamwidth.py"],
  [("data_normalization, hellinger, kl_divergence, common_histogram_bins, "
    "EllipseModel, common_scale, fourier_shift, padwithzeros, padwithnans",
    ST + "stats_utils.py"),
   ("leastsq_linear, bayes_linear, residual_bootstrap, check_fit_limits",
    ST + "fitting_utils.py"),
   ("convolution_wrapper", ST + "convolve_wrapper.py"),
   ("find_beam_properties", "turbustat/io/try_load_beamwidth.py")],
  "reference definitions, recovery of generated models and metamorphic "
  "relations")
