"""Per property: oracle, bounds and why this reaches what tests cannot."""
NOTES = {
"P01": "Differential: results for one canonical form (HDU in memory, native float64) against every other form of the same data. All statistics of `vlib/stats.py` (16) and `input_data` itself. Bounds: one to two degenerate axes; float32 compared to single precision only.",
"P02": "Fingerprints (bytes, dtype, flags, headers as text, deep copies of dictionaries) of everything passed in before and after a call; the same call repeated with the same objects must give the same result.",
"P03": "Differential: the same setting in pixels and in deg/arcmin/arcsec/rad or pc/AU/kpc (with a distance), converted here from the header's pixel scale. Grids are rotated, flipped and of any pixel size. Spectral settings likewise in m/s, km/s, Hz and channels.",
"P04": "Dense DFT matrices for the amplitudes; for radial profiles each sample is put into its annulus one by one and the statistic, scatter or confidence interval recomputed.",
"P05": "Dense DFT of the NaN-filled, weighted, windowed and padded image; the response of the Gaussian beam from radio_beam's kernel; annuli as in P04; metamorphic relations.",
"P06": "Sum over channels of dense-DFT power; block averages by loops; regridded cubes by velocity coverage.",
"P07": "Dense 3D DFT summed over spatial frequencies; cubes synthesised with exactly broken power-law spectra for the fits.",
"P08": "The combination in the statement from dense DFTs of the masked maps.",
"P09": "statsmodels (HC3 errors) and an explicit normal-equation solution on the points selected here; images synthesised with exactly power-law power.",
"P10": "Exactly broken lines for recovery; otherwise normal equations at the reported break; comparison of runs with and without non-finite points.",
"P11": "Surfaces and images with exactly elliptical power-law power; covariance at the solution recomputed numerically; the region outside the limits is filled with garbage.",
"P12": "Closed form of the split cosine bell by pixel loop.",
"P13": "Definition evaluated by rolling (or Fourier-shifting) spectra pixel by pixel; the recorded deviation of boundary='cut' is the only other result accepted there.",
"P14": "Direct (loop) convolution with the kernels of the definition, weighted variance; metamorphic relations; least squares over the selected lags.",
"P15": "Direct convolution with the Mexican hat; mean of positive coefficients; least squares over the selected scales.",
"P16": "The sampled phases are regenerated from the seed and the triple products summed in loops; slices by explicit membership.",
"P17": "Flood fill of regions in the smoothed image (smoothing by direct convolution) for each threshold.",
"P18": "Selection and sorting of the brightest values by definition, statistic by the double loop over rows.",
"P19": "Covariances over pairs of channels by definition; numpy eigen-decomposition up to sign and degeneracy; Gaussian autocorrelations of known widths; optimality of the orthogonal-distance fit.",
"P20": "Histogram and ECDF by counting; likelihood compared at the reported maximum and around it; closed forms for lognormal, normal and Pareto with fixed parameters; distances recomputed.",
"P21": "Lag maps by shifts, histograms by counting, local optimality of the least-squares fit; the recorded deviation of sigma clipping is the only other result accepted there.",
"P22": "Weighted moments in each circle by pixel loops.",
"P23": "Dendrograms built and pruned with astrodendro directly for each height; histograms and distances recomputed; recorded deviations (two) are the only other results accepted.",
"P24": "Moments by loops over voxels, errors by propagating the noise through the same sums; FITS files written to and read from a scratch directory.",
"P25": "Fourier amplitudes of the output compared with the requested power law mode by mode.",
"P26": "Sum of Gaussian lines over cells by loops; header cards recomputed.",
"P27": "Each dataset's slope and error from running its statistic alone; t statistic recomputed; symmetric, zero for equal data; pre-computed statistics.",
"P28": "Each dataset's curve/surface from running its statistic alone with the common lags/sizes/bins derived here; norms recomputed.",
"P29": "Round trips through files in a scratch directory; model-based histories of run/save/load over several objects and files.",
"P30": "A used object against a fresh one; sequences of operations over several objects sharing arrays; random states drawn and compared afterwards.",
"P31": "Matplotlib (Agg) artists of the drawn figure compared with the results in independently converted units; directory listings before and after; runs with and without plots.",
"P32": "Each helper against its definition; recovery of generated ellipses and lines; exact expectation of residual-bootstrap errors.",
}
