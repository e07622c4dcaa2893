"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
CH = 'python/getdist/chains.py'
MC = 'python/getdist/mcsamples.py'
PROPS = []
NA = [
    ('N01', 'The sampler is Fortran 2003 (source/MCMC.f90, SampleCollector.f90, propose.f90: type-bound procedures, MPI, LAPACK, CAMB types). '
            'No installed tool executes Fortran symbolically, CAMB is not part of the tree, and the guarantee is about the long-run '
            'distribution of an unbounded random process, which no bounded query decides.'),
    ('N02', 'The checkpoint code is in the Fortran sources (source/MCMC.f90, source/SampleCollector.f90); no installed tool executes '
            'Fortran symbolically (gfortran compiles it, but nothing here reads its GIMPLE dumps into a solver), and the CAMB sources the program is built with are missing, so no counterexample could be replayed.'),
    ('N03', 'The claim is statistical (error of an estimate as samples grow) and rests on a floating-point root search over FFT coefficients of a '
            'binned density; an exact-arithmetic encoding has no closed form for the fixed point and a fixed-width one exceeds the solver. '
            'What the estimate is for a given bandwidth is decided under C23 and C25.'),
    ('N04', 'Principal components come from the LAPACK eigenvalue routine, whose result has no exact rational form; a query over an '
            'uninterpreted eigensystem would only check the text layout of the report.'),
    ('N05', 'What is drawn is decided inside matplotlib (and Qt for the viewer), native code that cannot be executed symbolically; the densities, limits and '
            'contour levels handed to it are decided under C15, C23 and C26.'),
]


def P(id, title, statement, over, text, why, files, mech, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), note=note))


P('C01', 'Weighted statistics equal their weighted-sample definitions',
  'Means, variances, standard deviations, covariance and correlation matrices, weighted sums and effective sample '
  'numbers of a set of weighted samples equal their definitions as weighted sums over the rows. This holds for every '
  'sample matrix, every set of positive weights and every optional row filter, for parameters given by index, name, '
  'list or explicit vector.',
  ['inputs'], 'all sample values, positive weights and row filters of bounded-size sample sets',
  'Tests evaluate statistics on a few random Gaussian sets without filters and compare loosely.',
  [CH], [('mean, var, std, cov, corr, mean_diff(s), getMeans, getVars, getEffectiveSamples', CH)])
P('C02', 'Confidence limits invert the weighted empirical distribution',
  'A one- or two-tail confidence limit read from samples leaves (up to the weight of the single sample at the limit) '
  'exactly the requested fraction of total weight beyond it, for every data vector, every set of weights and every '
  'requested fraction. The limit is never outside the sample range, does not depend on row order, and upper and lower '
  'limits are ordered.',
  ['inputs'], 'all data vectors, weights, offsets of the window and limit fractions, bounded number of rows',
  'Tests only compare a few smooth Gaussian limits to a tolerance.',
  [CH], [('confidence, initParamConfidenceData, twoTailLimits', CH)])
P('C03', 'Row operations keep parameters, weights and likelihoods aligned',
  'Filtering, deleting zero- or low-weight samples, skipping rows and replacing data all keep each remaining row with '
  'its own weight and its own likelihood, in the original order, keeping exactly the requested rows. This also holds '
  'after any sequence of such operations.',
  ['inputs', 'histories'], 'all sample values, weights, filter masks and operation sequences within bounds',
  'Tests never compare rows one by one after filtering and never run sequences of operations.',
  [CH], [('setSamples, filter, deleteZeros, changeSamples, setColData, makeSingle', CH)])
P('C04', 'Thinning and random selection pick real samples at the right rate',
  'Thinning integer-weighted samples by a factor keeps unit-weight copies of existing rows exactly one factor apart in '
  'cumulative weight, and refuses a factor below the largest weight or non-integer weights. Random single-sample selection '
  'and weighted thinning select each row with probability proportional to its weight and only return rows that exist.',
  ['inputs', 'configurations'], 'all integer weights, factors, random draws and sample values within bounds',
  'Tests thin one chain and look only at the resulting length.',
  [CH, MC], [('thin_indices, thin_indices_and_weights, random_single_samples_indices, thin, weighted_thin, makeSingleSamples', CH)])
P('C05', 'Importance reweighting and cooling change weights exactly as specified',
  'Adding a log-likelihood to samples multiplies each weight by exp(-loglike) up to one common factor and shifts each '
  'stored log-likelihood by that amount; cooling maps weights and log-likelihoods to those of the same posterior at the '
  'other temperature. Parameter values and row order never change, and deleting zero weights leaves exactly the rows of positive weight.',
  ['inputs'], 'all weights, log-likelihoods, added log-likelihoods and cooling factors within bounds',
  'Tests exercise one reweighting with a tolerance on a mean.',
  [CH], [('reweightAddingLogLikes, cool, deleteZeros', CH)])
P('C06', 'Burn-in removal drops exactly the requested rows of each chain, once',
  'Asking to ignore a number of rows (or a fraction of rows) removes exactly that many (rounded) leading rows of every '
  'chain, from arrays as from files, before chains are combined, and nothing else. Chains already marked as burn-in '
  'removed, and importance-sampled chains, are never cut again.',
  ['inputs', 'configurations'], 'all row counts/fractions, sample values and burn-in markers within bounds',
  'Tests load one set of chains with one fraction and compare a mean loosely.',
  [CH, MC], [('removeBurn, removeBurnFraction, loadChains, WeightedSamples.__init__', CH), ('readChains, _setBurnOptions', MC)])
P('C07', 'Combined chains can always be split back into their own surviving rows',
  'Combining several chains concatenates them in order, keeping every row with its weight and likelihood. After any '
  'sequence of filtering, burn-in removal, thinning, reweighting or zero-weight deletion on the combined samples, splitting '
  'them again gives for each original chain exactly its own surviving rows.',
  ['inputs', 'histories'], 'all sample values, weights, masks and operation sequences within bounds',
  'Tests never split chains again after changing the combined samples.',
  [CH], [('makeSingle, getSeparateChains, filter, removeBurn, thin, deleteZeros, loadChains', CH)])
P('C08', 'Derived statistics always describe the current samples',
  'After any operation that changes samples, weights or likelihoods, every statistic asked for afterwards (means, '
  'variances, covariance, limits, ranges, marginalized and likelihood summaries) equals the one of a fresh object built from '
  'the current samples, even if it had been computed before the change.',
  ['inputs', 'histories'], 'all sample values and weights, every (statistic, mutation) pair within bounds',
  'Tests do not query a statistic before and after a mutation of the same object.',
  [CH, MC], [('_weightsChanged, setSamples, changeSamples, filter, reweightAddingLogLikes, cool', CH),
             ('setMeans, updateBaseStatistics, getMargeStats, getLikeStats, getCovMat', MC)])
PN = 'python/getdist/paramnames.py'
PP = 'python/getdist/parampriors.py'
INI = 'python/getdist/inifile.py'
P('C09', 'Parameter names always address their own column of the samples',
  'However samples are loaded, combined, merged with other samples, stripped of constant parameters or extended by derived '
  'parameters, every parameter name gives exactly its own values in every interface (attribute, item, mean, sample dictionary). '
  'Constant parameters are the only ones removed, keep their value as fixed value, and a refused duplicate name changes nothing.',
  ['inputs', 'histories'], 'all sample values and subsets of constant columns, operation sequences within bounds',
  'Tests look at a few means after loading one chain.',
  [CH, MC], [('_getParamIndices, setParams, getParams, getParamSampleDict, deleteFixedParams, addDerived', CH),
             ('getParamBestFitDict, getCombinedSamplesWithSamples, addDerived, readChains', MC)])
P('C10', 'Parameter name files round-trip names, labels, comments and derived flags',
  'Saving a list of parameters and loading it again gives the same names, labels, comments and derived flags in the same '
  'order, for every text allowed by the format. Labels taken from another file go to the parameters of the same name only, and '
  'names the format cannot represent are refused.',
  ['inputs'], 'all names, labels and comments up to the stated length over the special characters of the format',
  'Tests load one fixed file.',
  [PN], [('ParamInfo.setFromString, string, ParamNames.loadFromFile, saveAsText, saveKeyWords, setLabelsAndDerivedFromParamNames', PN)])
P('C11', 'Parameter limits in force are exactly those last set',
  'The lower and upper limit of a parameter, its fixed value and the limits reported by a set of samples are those most '
  'recently set (a side set to unbounded has no limit), from memory, settings or ranges files. Saving and loading ranges keeps '
  'every limit to printed precision, and a parameter range used for analysis never crosses its limits.',
  ['inputs', 'histories'], 'all limit values, bounded/unbounded patterns and sequences of settings within bounds',
  'Tests check four limits of one loaded chain.',
  [PP, MC], [('setRange, setFixed, fixedValue, fixedValueDict, loadFromFile, __str__', PP),
             ('setRanges, _initLimits, _initParam, getBounds, getUpper, getLower, addDerived', MC)])
P('C12', 'Settings files give back what was written, with the right precedence',
  'Settings saved to a file load back with the same keys, values and types; a main file overrides its default files, earlier '
  'defaults override later ones, and a key set twice is an error. Loading never changes which file is saved to, and saving '
  'never rewrites an included file.',
  ['inputs', 'configurations'], 'all keys/values up to the stated length, numbers, and presence patterns over main/included/default files',
  'Tests read one fixed settings file.',
  [INI], [('readFile, expand_placeholders, fileLines, saveFile, asType, bool, split, setAttr', INI)])
P('C13', 'Parameters are found by name, alias or pattern and by nothing else',
  'A parameter is found by its own name, by every alias connected to it through any chain of alias definitions, and by every '
  'wildcard pattern matching its name; no other text finds it. Merging alias dictionaries loses no alias, and lists of names and '
  'patterns expand to exactly the matching parameters in order.',
  ['inputs', 'configurations'], 'all alias dictionaries over a bounded set of names; all names and patterns up to the stated length',
  'Tests use one alias dictionary.',
  [PN, 'python/getdist/plots.py'], [('mergeRenames, parWithName, parsWithNames, getMatches, updateRenames, getRenames', PN),
                                    ('get_param_array', 'python/getdist/plots.py')])
CV = 'python/getdist/covmat.py'
DN = 'python/getdist/densities.py'
P('C14', 'Covariance entries stay with their parameters through files and merges',
  'A covariance matrix saved to a file loads with the same parameters, order and entries to printed precision; merging keeps '
  'the first matrix and adds only new parameters with their own covariances; rescaling multiplies exactly one row and column. '
  'The covariance estimated from samples covers exactly the non-derived parameters, each under its own name, and is independent '
  'of the samples object.',
  ['inputs', 'configurations'], 'all matrix entries, overlaps of parameter sets and derived-flag patterns within bounds',
  'No test loads, merges or rescales a covariance matrix.',
  [CV, MC], [('loadFromFile, saveToFile, rescaleParameter, mergeCovmatWhereNew, correlation', CV), ('getCovMat, writeCovMatrix', MC)])
P('C15', 'Density grids integrate, interpolate and give limits of the requested mass',
  'A normalised density integrates to one (or peaks at one) without changing its shape or its input, interpolation goes through '
  'the grid values and vanishes outside, and contour levels enclose the requested probability up to one grid bin. Equal-density '
  'limits are ordered, nested, have equal density on both sides, and are open exactly where the density stays above the level.',
  ['inputs'], 'all density values/fractions on grids within bounds',
  'Tests compare limits of smooth Gaussian samples to loose tolerances.',
  [DN], [('Density1D, Density2D, DensityND, normalize, setP, getContourLevels, getLimits, initLimitGrids', DN)])
BJ = 'python/paramgrid/batchjob.py'
BA = 'python/paramgrid/batchjob_args.py'
JQ = 'python/paramgrid/jobqueue.py'
GC = 'python/paramgrid/gridconfig.py'
P('C16', 'Samples saved as text load back as the same samples',
  'Samples, weights, likelihoods, parameter names, labels, derived flags, ranges, plot label and sampler type saved to text '
  'files load back the same (to printed precision), for one or several chains and for combined chains. Saving to any file '
  'name, with or without extension or new directories, writes exactly the files of that root, and saving again replaces them.',
  ['inputs', 'configurations'], 'all sample values, weights, likelihoods and limits within bounds, all listed ways of saving and loading',
  'Tests only load one saved chain and compare a mean.',
  [CH, MC], [('saveAsText, loadChains, WeightedSamples.__init__, loadNumpyTxt', CH), ('saveAsText, saveChainsAsText, readChains', MC)])
P('C17', 'Chain files of a run are exactly its own numbered files, in order',
  'The chain files found for a root are exactly the files named by the root, an optional separator and number, and the '
  'extension, restricted to the requested indices and without the excluded ones; no file of another run is ever included. '
  'Chains are read in numerical order whatever the directory listing, and a root is found wherever it lies below the search directory.',
  ['inputs', 'configurations'], 'all file names up to the stated length over the special characters, all index limits and orders of listing within bounds',
  'Tests list one directory with well-behaved names.',
  [CH, MC], [('chainFiles, loadChains, hasChainFiles', CH), ('loadMCSamples', MC), ('findChainFileRoot', CH)])
P('C18', 'Every run of a parameter grid has one unambiguous identity',
  'Each combination of parameters and data (and importance settings) of a grid gives exactly one run, with a unique name, '
  'directory and root made from its own tags, found again by its name in any order of tags; importance runs belong to their parent. '
  'Whether a run exists, is finished or converged, is decided by its own chain files only, and building a grid never changes its inputs.',
  ['inputs', 'configurations'], 'all grids, names and patterns of files present within bounds',
  'No test builds a grid.',
  [BJ], [('jobItem, dataSet, jobGroup, importanceSetting, batchJob.makeItems, items, resolveName, normed_name_item', BJ)])
P('C19', 'Selecting runs of a grid gives exactly the runs meeting every condition',
  'Command-line selection of grid runs by name pattern, group, parameters, data or importance returns exactly the runs '
  'that satisfy all given conditions, each once and in grid order; conditions that exclude runs never let one through. Runs '
  'without chains are only returned where the command accepts them.',
  ['inputs', 'configurations'], 'all option values up to the stated length, all single options and pairs of options within bounds',
  'No test runs a grid command.',
  [BA], [('filteredBatchItems, jobItemWanted, nameMatches, groupMatches, dataMatches, parseForBatch', BA)])
P('C20', 'The job index and queue commands agree with what was submitted',
  'After any sequence of submitting, deleting and listing jobs the index names exactly the live jobs, the newest job of '
  'each name and run, and each with its own settings; an interrupted update leaves either the old or the new index. Submitted '
  'scripts run exactly the requested runs with the requested cores and nodes, and deleting acts only on the matching jobs.',
  ['histories', 'crash_points', 'inputs'], 'all histories, crash points, queue states and core/node settings within bounds',
  'No test uses the job queue.',
  [JQ], [('addJobIndex, deleteJobs, deleteRootsJobs, saveobject, loadJobIndex, queue_job_details, submitJob, jobSettings', JQ)])
P('C21', 'Grid commands act on exactly the selected runs, and only if confirmed',
  'Commands that delete, cancel, copy, rename, list, analyse or submit runs of a grid act on exactly the files and jobs of the '
  'selected runs; destructive commands change nothing unless confirmed, and copying never changes the grid. Copied chains lose '
  'the requested burn-in once and are marked, and each analysis or job uses its own run and settings.',
  ['inputs', 'configurations'], 'all options, file names and queue states within bounds',
  'No test runs a grid command.',
  ['python/cleanup.py', 'python/deleteJobs.py', 'python/copyGridFiles.py', 'python/runbatch.py', 'python/renameParam.py'],
  [('whole script', 'python/cleanup.py'), ('whole script', 'python/copyGridFiles.py'), ('whole script', 'python/deleteJobs.py'),
   ('whole script', 'python/extractDistFiles.py'), ('whole script', 'python/listGrid.py'), ('whole script', 'python/renameParam.py'),
   ('whole script', 'python/runGridGetdist.py'), ('whole script', 'python/runbatch.py')])
P('C22', 'Settings files of a grid give each run exactly its own model and options',
  'The settings file made for each run of a grid varies exactly the parameters of that run with their priors, writes to its own '
  'output, and every option has the value of highest precedence among the data set, run, global and default settings; no option '
  'leaks between runs. Importance runs start from their parent, override its settings and write to their own root, and the most '
  'specific existing proposal covariance is used.',
  ['inputs', 'configurations'], 'all patterns of presence of options, parameters, covariance files and chains within bounds',
  'No test makes a grid.',
  [GC, BJ], [('makeGrid, updateIniParams, setMinimize', GC), ('makeItems, makeNormedName, readobject, saveobject', BJ)])
P('C23', 'Marginalised densities are the documented kernel estimate of the samples',
  'With a fixed smoothing scale, the 1D and 2D marginalised densities of bounded parameters are the normalised kernel-smoothed '
  'weighted samples, corrected at the prior edges to the requested order and for smoothing bias the requested number of times, with '
  'peak value one. Every sample counts with its own weight in its nearest bin, the grid covers all samples, mean likelihoods '
  'are smoothed the same way, and exchanging the two parameters transposes the result.',
  ['inputs', 'configurations'], 'all positions of the free samples and all correction orders within bounds',
  'Tests compare a few numbers from one random chain.',
  [MC, 'python/getdist/convolve.py'], [('get1DDensityGridData, get2DDensityGridData, _binSamples, _initParam, _setEdgeMask2D', MC)])
CO = 'python/getdist/cobaya_interface.py'
P('C24', 'Runs of the Cobaya sampler load with their own parameters, priors and burn-in',
  'Samples described by a Cobaya info, given as dictionary or found as files of the run, get exactly the sampled and derived '
  'parameters of their own columns with their labels, aliases, prior limits and fixed values, whatever form the specification uses, '
  'including what post-processing added or removed. The info is never changed, incompatible columns are refused, and burn-in '
  'that was already removed is not removed again.',
  ['inputs', 'configurations'], 'all prior limits and fixed values, all specification forms, column orders and post-processing options within bounds',
  'No test loads Cobaya samples.',
  [CO, 'python/getdist/paramnames.py', 'python/getdist/parampriors.py'],
  [('MCSamplesFromCobaya, get_info_params, get_range, fixed_value, is_parameter_with_range, expand_info_param, is_derived_param, is_sampled_param, get_sampler_type, get_burn_removed, cobaya_params_file', CO)])
CW = 'python/getdist/convolve.py'
P('C25', 'Convolutions, auto-correlations and effective sample numbers are as defined',
  'Convolutions in every mode, with or without stored transforms, equal the direct sums, and Gaussian smoothing equals the Gaussian '
  'average. The auto-correlation of weighted samples, the correlation length summed up to the threshold and the effective numbers of samples '
  'follow from their definitions in the requested units.',
  ['inputs', 'configurations'], 'all values of sequences, kernels and samples within bounds',
  'Tests check no auto-correlation or convolution.',
  [CW, CH], [('convolve1D, convolve2D, convolveFFT, convolveFFTn, autoConvolve, autoCorrelation, convolveGaussian*', CW),
             ('getAutocorrelation, getCorrelationLength, getEffectiveSamples', CH)])
TY = 'python/getdist/types.py'
P('C26', 'Quoted marginalised limits are the documented one- or two-tail limits',
  'For every parameter and contour the quoted limits are two-tail limits enclosing the stated probability, or one-tail limits towards a prior '
  'boundary at which the density does not fall off, or no limits when neither side falls off, under the documented thresholds and settings. '
  'Each limit carries the kind it has, and belongs to the parameter it is listed for.',
  ['inputs', 'configurations'], 'all end heights, thresholds, prior ranges and sample values within bounds',
  'Tests look at a few seeded distributions only.',
  [MC, TY], [('setMargeLimits, _setMargeLimits, getMargeStats, force_twotail, marge_limits_bydensity', MC), ('ParamLimit, MargeStats', TY)])
P('C27', 'Best fits, likelihood statistics and sample values belong to the same samples',
  'Likelihood statistics are the documented functions of the likelihoods and weights and quote the extremes of the parameters over the samples '
  'within the stated likelihood fraction. Best-fit files, single samples and combined chains give every parameter its own value, label and kind, '
  'and combining chains keeps the samples and the requested relative weights.',
  ['inputs', 'configurations'], 'all likelihoods, weights and parameter values within bounds',
  'Tests read one best-fit file.',
  [MC, TY, CH], [('getLikeStats, getParamSampleDict, getParamBestFitDict, getBestFit, getCombinedSamplesWithSamples', MC),
             ('BestFit, LikeStats, ParamResults', TY)])
P('C28', 'Numbers in tables are rounded correctly and errors match central values',
  'A number shown with some number of significant figures differs from the true one by at most half a unit of the last significant figure, '
  'with the right sign and with an exponent only when it is large or small. A value quoted with errors shows the errors to their '
  'own significant figures and at least as many decimals as the upper error, and stays accurate compared to it.',
  ['inputs', 'configurations'], 'all decimal numbers within bounds and all stated numbers of figures',
  'Tests compare one table.',
  [TY], [('numberFigs, NumberFormatter.formatNumber, namesigFigs, decimal_places, float_to_decimal', TY)])
P('C29', 'Result tables and result files show each parameter its own results',
  'A table of results shows every selected parameter once, with its label, in its place, and beside it the limits, mean and error, best fit or shift '
  'of that same parameter from each result, in the form its kind of limit asks for; a missing result leaves the right number of empty cells. '
  'Result files read back give every parameter the same numbers, kinds of limits, labels and derived marks.',
  ['inputs', 'configurations'], 'all means, errors, limits and best fits, all table layouts and missing parameters within bounds',
  'Tests compare one table.',
  [TY, MC], [('ResultTable, MargeStats.texValues, BestFit.texValues, loadFromFile, LikeStats, addBestFit', TY), ('getLatex, getInlineLatex', MC)])
P('C30', 'Convergence diagnostics follow their definitions for the right parameter',
  'The reported variance of chain means over mean chain variance, its eigenvalues over the non-derived parameters, the change of quantiles when the '
  'samples are split into parts of equal weight, the correlation lengths and auto-correlations are those of the samples by definition. '
  'Every number stands in the line of its own parameter, and a report written to a file reads back the same.',
  ['inputs', 'configurations'], 'all values of the free samples within bounds',
  'Tests never look at convergence statistics.',
  [MC, CH, TY], [('getConvergeTests, getFractionIndices', MC), ('getGelmanRubinEigenvalues, getGelmanRubin', CH), ('ConvergeStats', TY)])
GM = 'python/getdist/gaussian_mixtures.py'
P('C31', 'Gaussian mixture models are the mixtures they are stated to be',
  'The density, mean and covariance of a mixture follow from its components and weights. Marginal and conditional mixtures over any parameters, by name or '
  'position, are those of probability theory and keep names, labels and limits. Simulated samples lie within the limits, in the number asked for.',
  ['inputs', 'configurations'], 'all means, weights, limits, fixed values and random draws within bounds',
  'Tests compare a few fixed mixtures.',
  [GM], [('MixtureND, Mixture2D, Mixture1D, marginalizedMixture, conditionalMixture, pdf, density1D, density2D, sim', GM)])
CL = 'python/CMBlikes.py'
P('C32', 'CMB likelihoods follow from the spectra, windows and covariance of their data',
  'The chi-squared of a theory is the quadratic form of its binned spectra minus the measured bandpowers in the inverse of the covariance of exactly the '
  'selected maps and bins (or the documented non-Gaussian form), with noise, calibration, aberration and linear corrections each applied once. '
  'Every spectrum is found by its own name in any column order and in either order of its two maps, and theory the data were made from fits perfectly.',
  ['inputs', 'configurations'], 'all theory, bandpower, noise, window and calibration values within bounds',
  'Tests never compute a likelihood.',
  [CL, 'python/makePerfectForecastDataset.py'], [('ClsArray, BinWindows, DatasetLikelihood', CL), ('make_forecast_cmb_dataset', 'python/makePerfectForecastDataset.py')])

SN = 'python/planck/SN.py'
P('C33', 'Supernova likelihoods follow from the measured supernovae and their covariance',
  'The likelihood is that of the standardised magnitudes given the distances, in the full covariance for the given stretch and colour slopes, marginalised over '
  'one absolute magnitude, or two when hosts are split by mass. It does not depend on a common scale of the distances, on the order of columns '
  'of the data or on earlier evaluations, and integrating over the slopes sums the likelihood over exactly the stated grid.',
  ['inputs', 'configurations', 'histories'], 'all magnitudes, stretches, colours, slopes and distances within bounds',
  'Tests never compute a likelihood.',
  [SN], [('SN_likelihood', SN)])

WHY_NA = 'A test can only look at a few concrete runs.'
P('N01', 'Chains sample the posterior of the stated priors and likelihood',
  'Samples written by the sampler are distributed according to the product of the priors and the likelihood of the settings, whichever sampling '
  'method, temperature and proposal are chosen.', ['inputs', 'histories'], 'all settings, all runs', WHY_NA,
  ['source/MCMC.f90', 'source/propose.f90'], [('Metropolis-Hastings steps', 'source/MCMC.f90')])
P('N02', 'An interrupted run continues as if it had not been interrupted',
  'A run that is stopped at any point and started again from its checkpoint keeps every sample already written and continues its chains without '
  'repeating or losing samples.', ['crash_points'], 'every point at which a run may stop', WHY_NA,
  ['source/MCMC.f90', 'source/SampleCollector.f90'], [('checkpoint files', 'source/SampleCollector.f90')])
P('N03', 'Automatic smoothing widths approach the optimal ones',
  'The smoothing width chosen automatically for a density minimises the expected squared error of the estimated density.', ['inputs'],
  'all sample sets', WHY_NA, ['python/getdist/kde_bandwidth.py'], [('bandwidth optimiser', 'python/getdist/kde_bandwidth.py')])
P('N04', 'Principal components reported are those of the samples',
  'The principal-component report lists the eigenvalues and directions of the correlation matrix of the chosen parameters.', ['inputs'],
  'all sample sets', WHY_NA, ['python/getdist/mcsamples.py'], [('PCA', 'python/getdist/mcsamples.py')])
P('N05', 'Plots show the densities and contours of the samples asked for',
  'Curves and filled contours drawn by the plotting functions and the viewer are the densities of the samples and parameters asked for.', ['inputs'],
  'all sample sets and plot requests', WHY_NA, ['python/getdist/plots.py', 'python/getdist/gui/mainwindow.py'],
  [('plotting', 'python/getdist/plots.py')])
