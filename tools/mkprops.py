"""writes properties.jsonl (the property texts live here)"""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []


def prop(id, title, statement, qtext, why, files, mech, obs, over=("inputs",), state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None)
    if state:
        a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why, anchors=a))


SED = "dsps/sed/stellar_age_weights.py"
UT = "dsps/utils.py"
prop("P01", "Stellar age weights are the exact mass fractions of the star formation history",
     "For a tabulated star formation history and an observation time, the weight of each stellar age bin is the fraction of the mass formed up to that time whose age falls between the bin's edges (mid points between neighbouring log ages), with mass formed by any time read from the trapezoid-rule cumulative history interpolated in log time and log mass. The weights are finite, non-negative, sum to one, and give zero weight to ages older than the universe.",
     "every number of table points and age bins, every increasing time table from 0.01 Gyr on, every non-negative star formation history, every increasing age grid, every observation time after the birth limit that leaves some mass formed",
     "tests use one or two hand-made histories and check sums to loose tolerances; edge bins, ages beyond the table, zero star formation and arbitrary grids are never swept",
     [SED, UT], [("mass-weighted age bins from a cumulative mass table", SED), ("bin edges of a log-age grid", UT)],
     ["calc_age_weights_from_sfh_table"])
prop("P02", "Metallicity weights are a normalised triweight distribution over the grid",
     "The weights that distribute stars over a metallicity grid are the integrals of the triweight density centred on the galaxy's log metallicity, with the given scatter, over the bins whose edges are the mid points of the grid (outer edges at -10 and 10). They are non-negative and sum to one; a metallicity that lies wholly beyond the outer edges is assigned entirely to the nearest bin. With a metallicity history the table holds, for each stellar age, that distribution divided by the number of ages, with the metallicity taken, by linear interpolation in log cosmic time, at the time the star was born.",
     "every grid of at least three increasing metallicities, every metallicity and positive scatter, every metallicity history and age grid",
     "tests evaluate a handful of metallicities inside the grid; empty kernels, very small or large scatter and out-of-grid values are not swept",
     ["dsps/sed/metallicity_weights.py", UT], [("triweight bin integrals with an out-of-grid fallback", UT), ("per-age lookup of the birth metallicity", "dsps/sed/metallicity_weights.py")],
     ["calc_lgmet_weights_from_lognormal_mdf", "calc_lgmet_weights_from_lgmet_table"])
prop("P03", "Joint age-metallicity weights factor into their two marginals",
     "The joint weight of each (metallicity, age) template equals the age weight times the metallicity weight for that age, for constant and for evolving metallicity; all entries are non-negative, the total is one, and summing over metallicity gives back the age weights. The returned age and metallicity weights are exactly those of the separate age and metallicity calculations for the same inputs (including an optional floor on the star formation rate).",
     "every table, grid, metallicity, scatter and observation time satisfying the documented requirements, all array lengths",
     "tests compare shapes and one total; the factorisation and marginals for arbitrary inputs, and agreement between the two code paths, are not covered",
     ["dsps/sed/ssp_weights.py"], [("product of age and metallicity weights, axis order", "dsps/sed/ssp_weights.py")],
     ["calc_ssp_weights_sfh_table_lognormal_mdf", "calc_ssp_weights_sfh_table_met_table"])
prop("P04", "The rest-frame spectrum is the formed mass times the weighted template sum",
     "The rest-frame spectrum of a galaxy at every wavelength equals the total stellar mass formed by the observation time multiplied by the weighted sum over all templates of the template flux, with the weights being those of the joint age-metallicity calculation for the same inputs (including an optional floor on the star formation rate). The function also returns those weights, and the spectrum is non-negative for non-negative templates and linear in the templates.",
     "every table, template cube (n_met, n_age, n_wave), metallicity, scatter and observation time, every positive star-formation floor",
     "tests use one galaxy and a random template set; they never vary the optional floor nor check the mass normalisation",
     ["dsps/sed/stellar_sed.py", "dsps/sed/ssp_weights.py"], [("weighted sum over metallicity and age, and its mass normalisation", "dsps/sed/stellar_sed.py")],
     ["calc_rest_sed_sfh_table_lognormal_mdf", "calc_rest_sed_sfh_table_met_table"])
prop("P05", "Stellar mass formed is the trapezoid integral of the star formation rate",
     "The cumulative stellar mass at each table time is, in solar masses, the trapezoid-rule integral of the star formation rate up to that time, starting at 0.001 Gyr with the minimum rate 1e-14 Msun/yr; it is positive and non-decreasing for non-negative rates (strictly increasing for positive ones) and its log10 is what the log-mass table holds. The general cumulative and total trapezoid integrals agree with the trapezoid rule at every point, the last cumulative value being the total.",
     "arrays of every length, every abscissa and ordinate",
     "tests integrate a few fixed functions; array length 1 or 2, irregular spacing and the treatment before the first table time are not swept",
     [UT, SED], [("running sum carried through a scan", UT), ("padding before the first time", UT), ("log table", SED)],
     ["cumulative_mstar_formed", "trapz", "cumtrapz", "_calc_logsm_table_from_sfh_table"])
prop("P06", "Triweight kernels form a proper probability distribution",
     "The triweight density is non-negative, symmetric, supported within three scale lengths and its cumulative function is its integral: 0 below, 1 above, 1/2 in the middle, non-decreasing and continuous. The probability a kernel gives to a bin is the difference of the cumulative function at its edges, so it is non-negative and the bins of a contiguous grid add up to the probability of the whole interval; grid edges are the mid points between neighbours with the given outer edges.",
     "every position, every positive width, every increasing grid of at least three points",
     "tests check a few widths by numerical integration; the piecewise seams and grids of unequal spacing are not swept",
     [UT], [("degree-7 polynomial with clipping", UT), ("bin edges and widths", UT), ("fallback for empty kernels", UT)],
     ["triweight_gaussian", "triweighted_histogram", "_tw_cuml_kern", "_get_bin_edges", "_jax_get_dt_array", "_get_triweights_singlepoint"])
prop("P07", "Sigmoid transforms are monotone bijections with an exact inverse",
     "The sigmoid transform stays strictly between its two limits, passes through their mean at its centre, is strictly monotone (increasing when the upper limit exceeds the lower and the steepness is positive), and the inverse transform undoes it exactly in both directions. The sloped variant is a line through its pivot whose slope is that sigmoid.",
     "every argument, centre, non-zero steepness and pair of distinct limits",
     "tests try a few random draws with rounding tolerances",
     [UT], [("logistic function and its logarithmic inverse", UT)],
     ["_sigmoid", "_inverse_sigmoid", "_sig_slope"])
prop("P08", "Burst parameters map one-to-one onto their allowed ranges",
     "Any real values of the unbounded burst parameters map to a burst fraction between 1e-8 and 0.1, a peak age between 1e5 and 1e8 yr and a maximum age at least ten times the peak and at most 1e9 yr; the mapping is strictly increasing in each parameter. The inverse mapping recovers the parameters exactly in both directions, and the packaged default unbounded parameters are the images of the packaged defaults.",
     "all real unbounded parameters; all bounded parameters inside their ranges",
     "tests draw a few random parameters; the dependent bound (maximum age versus peak age) is only sampled",
     ["dsps/sfh/diffburst.py"], [("chained sigmoid bounds", "dsps/sfh/diffburst.py")],
     ["_get_params_from_u_params", "_get_u_params_from_params", "DEFAULT_BURST_U_PARAMS"])
prop("P09", "Adding a burst mixes two age distributions without losing mass",
     "The age weights of a population with a burst are the burst fraction times the burst's age distribution plus the remainder times the smooth age weights. The burst distribution is proportional to a triweight of log age centred on the peak, vanishing at and beyond the maximum age, non-negative and summing to one whenever some age lies inside its support; so the result is non-negative and sums to one whenever the smooth weights do.",
     "every age grid length and grid, every burst fraction, peak and maximum age, every smooth distribution",
     "tests use the default grid and a few random parameters; the support edge, the mixture identity and empty bursts are not covered",
     ["dsps/sfh/diffburst.py"], [("triweight burst and zero-safe normalisation", "dsps/sfh/diffburst.py")],
     ["calc_bursty_age_weights", "calc_bursty_age_weights_from_u_params", "_compute_bursty_age_weights_from_params", "_pureburst_age_weights_from_params"])
MZ = ["dsps/metallicity/mzr.py", "dsps/metallicity/umzr.py"]
prop("P10", "Mass-metallicity relation never exceeds its present-day value",
     "The mean metallicity of a galaxy of given stellar mass at cosmic time t is the present-day relation (a smooth two-slope line in log mass through its pivot, in units of the solar value 0.012) plus an evolution term that is never positive and stops changing after 12.5 Gyr. The present-day relation's local chord slope through the pivot stays between its two limiting slopes.",
     "every stellar mass, cosmic time and parameter set (positive transition look-back time), scalar and array inputs",
     "tests check monotonicity on two grids with default parameters",
     MZ, [("clipped sigmoid-slope evolution", f) for f in MZ],
     ["mzr_model", "mzr_model_t0", "mzr_evolution_model", "maiolino08_metallicity_evolution"])
prop("P11", "Metallicity parameters map one-to-one onto their allowed ranges",
     "Any real values of the unbounded mass-metallicity parameters map strictly inside the documented bounds, where the high-mass slope is bounded by zero and the low-mass slope instead of its own fixed bounds; the inverse mapping recovers the parameters exactly in both directions. The packaged default unbounded parameters are the images of the packaged defaults.",
     "all real unbounded parameters; all bounded parameters inside their ranges",
     "tests draw a few random parameters",
     ["dsps/metallicity/umzr.py"], [("table of bounds and chained sigmoids", "dsps/metallicity/umzr.py")],
     ["get_bounded_mzr_params", "get_unbounded_mzr_params"])
AC = "dsps/dust/att_curves.py"
prop("P12", "Dust transmission is a fraction between its floor and one",
     "The transmitted fraction at each wavelength is floor + (1 - floor) * 10^(-0.4 A) with the attenuation A = Av * k / 4.05 clipped at zero; it lies between the floor and one, equals one without dust, and never increases when Av increases for a non-negative reddening curve.",
     "every reddening curve of any length, every Av, every floor in [0, 1]",
     "tests check default curves with a few Av values",
     [AC], [("clipping and magnitudes-to-fraction conversion", AC)],
     ["_frac_transmission_from_k_lambda", "_att_curve_from_k_lambda"])
prop("P13", "Reddening curves follow their published forms and are never negative",
     "The Calzetti (2000), Leitherer (2002), Noll (2009), Salim (2018) and smooth triweight reddening curves follow their published formulas at every wavelength: the Leitherer form at or below 0.15 micron and Calzetti above, a Drude bump of the requested amplitude, centre and width added before (Noll) or after (Salim) the power-law modification normalised at 0.55 micron. The Noll and Salim curves and all attenuation curves are never negative, and attenuation scales linearly with Av.",
     "every positive wavelength, every slope, bump amplitude, centre and width, every Av, arrays of any length",
     "tests compare to stored tables at fixed wavelengths and three parameter sets",
     [AC], [("piecewise curves, bump and clipping", AC)],
     ["calzetti00_k_lambda", "leitherer02_k_lambda", "noll09_k_lambda", "sbl18_k_lambda", "triweight_k_lambda", "*_att_curve", "_drude_bump", "power_law_vband_norm", "_get_eb_from_delta"])
CO = "dsps/cosmology/flat_wcdm.py"
prop("P14", "Cosmological distances agree with each other and the expansion rate",
     "The comoving distance is the speed of light over the Hubble constant times the trapezoid integral of 1/E(z) on a uniform grid from 0 to z, with E(z)^2 = Om0 (1+z)^3 + (1-Om0) times the dark-energy density factor of a w0-wa model; it is zero at z=0 and strictly positive for z>0. Luminosity distance is (1+z) times it, angular diameter distance is it over (1+z), the distance modulus is 5 log10 of the luminosity distance in units of 10 pc, and the differential comoving volume is (c/H0) D^2/E; the array versions agree with the scalar ones at each redshift.",
     "every non-negative redshift, matter density in (0,1], dark-energy parameters and Hubble parameter, arrays of any length",
     "tests compare with astropy for a few cosmologies and redshifts to loose tolerance",
     [CO], [("expansion rate and trapezoid integral", CO), ("vectorisation axes", CO)],
     ["comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z", "distance_modulus_to_z", "differential_comoving_volume_at_z", "comoving_distance", "luminosity_distance", "angular_diameter_distance", "distance_modulus", "differential_comoving_volume"])
prop("P15", "Cosmic times, densities and dynamical times are mutually consistent",
     "Look-back time is the Hubble time times the trapezoid integral of 1/((1+z)E(z)) from 0 to z, the age today is the same integral out to redshift 999 on a logarithmic grid, and the age at z is the age today minus the look-back time, so it equals the age today at z=0 and decreases below it for z>0. The critical density is its present value times E(z)^2 (times h^2), and the virial crossing time is 2^1.5 times the Hubble time over the square root of the Bryan-Norman overdensity for the matter fraction at that redshift.",
     "every non-negative redshift and every cosmology with matter density in (0,1], arrays of any length",
     "tests compare with astropy and Colossus values at a few points",
     [CO, "dsps/cosmology/defaults.py"], [("time integrals on uniform and logarithmic grids", CO), ("virial overdensity", CO)],
     ["lookback_to_z", "lookback_time", "age_at_z0", "age_at_z", "rho_crit", "virial_dynamical_time", "hubble_distance_mpc"])
PK = "dsps/photometry/photometry_kernels.py"
prop("P16", "Magnitudes are AB magnitudes of the filter-averaged flux",
     "The rest-frame flux through a filter is the trapezoid integral over the filter grid of transmission times spectrum (linearly interpolated, zero outside the spectrum's range) over wavelength, divided by the same integral for the 3631 Jy reference source; the rest-frame magnitude is -2.5 log10 of it. The apparent magnitude is the same with the spectrum's wavelengths stretched by (1+z), plus the distance modulus minus 2.5 log10(1+z); multiplying a spectrum by a constant shifts every magnitude by -2.5 log10 of the constant, and rescaling a transmission curve changes no magnitude.",
     "every spectrum and filter of any length (increasing wavelengths, positive flux through the filter), every redshift and cosmology",
     "tests compare with FSPS for a few spectra and filters",
     [PK], [("interpolation, integration and zero point", PK), ("cosmological dimming", PK)],
     ["calc_obs_mag", "calc_rest_mag", "calc_rest_flux", "_cosmological_dimming", "_cosmological_dimming_from_table", "_calc_obs_mag_no_dimming"])
prop("P17", "Precomputed photometry tables agree entry by entry with single magnitudes",
     "Each entry of the precomputed tables of apparent magnitudes (redshift, metallicity, age, filter), rest-frame magnitudes and k-corrected rest-frame magnitudes (metallicity, age, filter) equals the magnitude computed individually for that template, filter and redshift; k-corrected magnitudes are the apparent magnitudes without distance modulus and dimming.",
     "every number of redshifts, metallicities, ages, wavelengths, filters and filter points; all values",
     "tests compare a few entries of one random table",
     ["dsps/photometry/photpop.py"], [("nested vectorisation over table axes", "dsps/photometry/photpop.py")],
     ["precompute_ssp_obsmags_on_z_table", "precompute_ssp_restmags", "precompute_ssp_restmags_z_kcorrect"])
prop("P18", "Filter resampling preserves range and shape; effective wavelength is a mean",
     "Resampling a set of filters onto a common number of points returns, for each filter, equally spaced wavelengths from its own first to its own last wavelength with the transmission linearly interpolated there (default number of points: the shortest input), leaving values within the original minimum and maximum; the caller's curves are left as they were. The effective wavelength is the transmission-weighted mean wavelength divided by (1+z), lying within the filter's range for non-negative transmission.",
     "any number of filters of any lengths with increasing wavelengths, any requested number of points, any redshift",
     "tests use the packaged filters or one top-hat",
     ["dsps/photometry/utils.py", "dsps/dust/utils.py"], [("common-length interpolation", "dsps/photometry/utils.py"), ("ratio of trapezoid integrals", "dsps/dust/utils.py")],
     ["interpolate_filter_trans_curves", "get_filter_effective_wavelength"])
EW = "dsps/em_lines/equivalent_width.py"
prop("P19", "Line flux and equivalent width subtract a fitted continuum",
     "The continuum is the least-squares quadratic through the points inside the two side windows (bounds included) and no others; the line flux is the trapezoid integral inside the line window of spectrum minus that quadratic, and the equivalent width is the line flux over the continuum at the line centre. A spectrum that is exactly quadratic in both side windows and the line window has zero line flux, and both entry points return the same flux and equivalent width.",
     "every wavelength grid, spectrum, line window and side windows holding at least three distinct points",
     "tests use one synthetic line on one grid",
     [EW], [("masked weighted polynomial fit", EW), ("masked integration", EW)],
     ["_ew_kernel", "_continuum_line_decomp_kern", "_weighted_quadratic_fit"])
IMF = ["dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py"]
prop("P20", "Surviving and remnant mass fractions follow their calibrated forms",
     "The surviving stellar mass fraction and the remnant mass fraction are the documented smooth functions of log age, evaluated element by element, for the default and any other parameters; for all four packaged initial mass functions the surviving fraction lies strictly between 0 and 1 and the remnant fraction is positive. The remnant fraction of a population is below one at every age up to 10^12 yr.",
     "every log age between 4 and 12 (and every real for the formulas), every parameter set, arrays of any length",
     "tests compare to stored tables at fixed ages with loose tolerance",
     IMF, [("sigmoid-slope forms", f) for f in IMF],
     ["surviving_mstar", "remnant_mass"])
prop("P21", "Blackbody densities obey Planck's law in frequency and in wavelength",
     "The frequency density equals 2 h nu^3 / c^2 / (exp(h nu / kT) - 1) and the wavelength density 2 h c^2 / lambda^5 / (exp(h c / lambda kT) - 1), in solar units per square metre per steradian per Hz or Angstrom; both are positive, increase with temperature at fixed frequency or wavelength, and agree with each other through |d nu / d lambda| = c / lambda^2. The helpers for the position of the peak follow Wien's displacement laws to within 0.1 percent.",
     "every positive frequency, wavelength and temperature, arrays of any length",
     "tests compare with one reference at a few temperatures",
     ["dsps/dust/blackbody.py"], [("log-space prefactors and unit conversion", "dsps/dust/blackbody.py")],
     ["blackbody_freq_density", "blackbody_wave_density", "_jax_bb_frequency_peak", "_jax_bb_wavelength_peak"])
LS = "dsps/data_loaders/load_ssp_data.py"
prop("P22", "Template files are located by precedence and read back what was written",
     "The template loader reads the file given explicitly, else the named file in the given directory, else the named file in the configured data directory, and fails with an error when none is configured or the file is absent; the spectra, ages, metallicities and wavelengths the file holds at the time of the call come back unchanged. Emission lines are present exactly when the file holds them, with names and wavelengths in file order and luminosities converted from solar units to erg/s.",
     "every combination of arguments and environment, every file content (any number of lines, any values)",
     "tests load one or two fixed files",
     [LS, "scripts/write_fsps_data_to_disk.py"], [("argument precedence and key handling", LS)],
     ["load_ssp_templates"], over=("inputs", "configurations"))
LF = "dsps/data_loaders/load_filter_data.py"
prop("P23", "Transmission curves are valid fractions or rejected",
     "Loading a filter returns its wavelengths unchanged and a transmission that is a valid fraction at every wavelength: a file with any value below -0.01 or above 1.01 is rejected with an error, and all other values are returned clipped to [0, 1]. The file, read at the time of the call, is the one given explicitly, else the unique match of the pattern in the given directory or in the filters folder of the configured data directory; no match, several matches, or a missing configuration is an error.",
     "every file content of any length, every combination of arguments and environment",
     "tests load one valid and a few invalid curves",
     [LF], [("validation and clipping", LF), ("lookup precedence", LF)],
     ["load_transmission_curve"], over=("inputs", "configurations"))
LE = "dsps/data_loaders/load_emline_info.py"
prop("P24", "Selecting emission lines keeps names, wavelengths and luminosities aligned",
     "Selecting a subset of emission lines returns exactly the requested lines in the requested order, each keeping the wavelength and the luminosity column it had, and leaves all other template data, and the data passed in, unchanged; an unknown name is an error. Reading the line list gives, for every line of the file, its wavelength under its name with brackets dropped, spaces and hyphens turned into underscores and dots into 'p'.",
     "every number of lines, every subset and order, every line-list file",
     "tests select one fixed subset",
     [LE], [("index lookup by name", LE), ("name clean-up", LE)],
     ["get_subset_emline_data", "read_emlines_info_fsps"])
RF = "dsps/data_loaders/retrieve_fsps_data.py"
prop("P25", "Templates retrieved from the stellar population code keep their layout",
     "Retrieved template data hold log10 of the code's metallicities, its log ages shifted to Gyr, its wavelength grid, and for each metallicity in order the spectra that the code returns for that metallicity (and the line luminosities, if it provides them) with the nebular-emission setting and all extra settings passed on. Each emission line is named by the reference line whose wavelength agrees to one part in a million, and writing the data to disk and loading them back gives the same data up to the luminosity unit.",
     "every number of metallicities, ages, wavelengths and lines, every keyword setting",
     "the stellar population code is not installed where tests run, so nothing exercises this path",
     [RF, "scripts/write_fsps_data_to_disk.py"], [("loop over metallicity indices", RF), ("wavelength matching", RF), ("file layout", "scripts/write_fsps_data_to_disk.py")],
     ["retrieve_ssp_data_from_fsps", "write_fsps_data_to_disk"], over=("inputs", "configurations"))
prop("P26", "Power-law sampling stays in bounds and inverts its distribution",
     "The power-law density on [a, b] with index g is g x^(g-1) / (b^g - a^g): positive inside the interval. Random draws lie within [a, b] for every random key, and each draw's cumulative probability equals the uniform random number it came from.",
     "every 0 < a < b, every non-zero index, every random key, arrays of any length",
     "tests draw a few thousand points for two indices",
     [UT], [("inverse-transform sampling", UT)],
     ["powerlaw_pdf", "powerlaw_rvs"])
prop("P27", "Weight matrices are outer products for every galaxy",
     "For each galaxy, the two- and three-dimensional weight matrices are the outer products of that galaxy's weight vectors, with the axes in argument order; their total is the product of the totals of the vectors.",
     "every number of galaxies and vector lengths, all values",
     "tests use two galaxies with fixed lengths",
     [UT], [("nested vectorisation", UT)],
     ["_get_weight_matrices_2d", "_get_weight_matrices_3d"])

LT = "dsps/data_loaders/load_filter_data.py"
prop("P28", "Random filters and random relation parameters stay valid",
     "For every random key: each randomly drawn parameter of the metallicity relation at the present day lies within the documented bounds of that parameter, each from its own draw (the key is split once per parameter and the second half is used, so that a key always gives the same parameters), whether the bounds are the default ones or given; and a randomly drawn filter has 200 equally spaced wavelengths over the requested range (1000 to 10000 Angstrom by default) and a transmission that is a Gaussian of the requested width (300 Angstrom by default), normalised so that its largest value is one, so that the transmission is a valid fraction (at most 1, and above 0 unless it underflows) everywhere. The Gaussian is centred where the caller asks, a centre outside of the range being an error, and otherwise at a uniform draw at least two widths inside the range, taken from the key given or, with none given, from a key of its own.",
     "every random key, every bounds, every range, every centre, every width of at least one Angstrom that (where the centre is drawn) leaves room for two widths on either side",
     "tests look at a handful of keys and one width",
     [LT, "dsps/metallicity/umzr.py"], [("random filter", LT), ("bounded uniform draws", "dsps/metallicity/umzr.py")],
     ["get_ran_t0_params", "load_random_transmission_curve"])

INTS = ["P%02d" % i for i in range(1, 18)] + ["P20", "P21", "P26", "P27"]
for _p in P:
    if _p["id"] in INTS:
        _p["statement"] += (" Whole numbers, where integers are accepted, give the same result as integers and as floating-point"
                            " numbers, and a result never depends on earlier calls.")
        _p["quantifier"]["text"] += "; numbers given as integer or floating-point types"

with open(OUT, "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
