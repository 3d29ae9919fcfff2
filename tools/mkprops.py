#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so wording changes are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
R='py/redrock/'
prop('C01','Rebinned templates are exact bin averages, independently per redshift and basis',
 'For a template tabulated at increasing wavelengths, every rebinned value is the average over its output bin of the straight-line interpolation of the redshifted template, and when several redshifts and basis vectors are rebinned at once every entry equals the one obtained for that redshift and basis vector alone. If any output bin reaches outside the redshifted wavelength range of the template for any requested redshift, the request is rejected with a ValueError and no values are returned. Bin edges derived from bin centres lie midway between neighbouring centres, and the first and last bin are symmetric about their centres.',
 ['inputs'],'all increasing input grids, all flux arrays, all increasing bin edges, all redshifts greater than -1, any number of redshifts and basis vectors',
 'The tests rebin a handful of constant and linear templates on a few grids; the exactness claim ranges over every alignment of samples and edges and over every batch size.',
 [R+'rebin.py'],[('centers2edges',R+'rebin.py'),('_trapz_rebin_1d',R+'rebin.py'),('_trapz_rebin_batch',R+'rebin.py'),('trapz_rebin',R+'rebin.py'),('rebin_template',R+'rebin.py')],
 ['return value of trapz_rebin, rebin_template and centers2edges'])
prop('C02','IGM transmission is a fraction, one redward of Ly-alpha, computed per element',
 'The transmission applied to a template is at most 1 and never negative, and it is exactly 1 at every wavelength that is redward of Lyman-alpha in the rest frame. The value for a given redshift and wavelength does not depend on which other redshifts or wavelengths are requested in the same call, and the result has one axis per array argument (a scalar when both are scalars). When the caller allows "no array", nothing is returned only if every transmission would have been 1, and an unknown model name is rejected with a ValueError.',
 ['inputs','configurations'],'every redshift > -1 and observed wavelengths with rest wavelengths above 100 Angstrom, scalar or array, every supported model',
 'The tests evaluate the models at a few redshifts on one grid; boundedness and per-element independence concern every combination of redshifts that may share one call.',
 [R+'igm.py',R+'constants.py'],[('transmission_Lyman',R+'igm.py'),('transmission_Lyman_CaluraKamble',R+'igm.py'),('transmission_IGM_Inoue14',R+'igm.py'),('Inoue14',R+'igm.py')],['return value of transmission_Lyman'])
prop('C03','Each trial redshift gets its own least-squares optimum and its chi2',
 'For every trial redshift the reported chi2 is the inverse-variance weighted sum of squared differences between the data and the resolution-convolved template with the reported coefficients, and for unconstrained templates no other coefficients give a smaller value, while for non-negative templates no reported coefficient is negative. Pixels with zero weight have no influence, and the result at one trial redshift does not depend on the other trial redshifts or targets in the same scan. If all weights are zero or the system cannot be solved, the chi2 is the sentinel 9999999 and the scan continues.',
 ['inputs'],'all spectra, weights (including zeros), templates, numbers of redshifts, basis vectors and targets',
 'The tests check one synthetic galaxy and one star; optimality and independence are universally quantified over spectra, weights and coefficient vectors.',
 [R+'zscan.py'],[('calc_zchi2_batch',R+'zscan.py'),('_zchi2_one',R+'zscan.py'),('calc_zchi2_one',R+'zscan.py'),('calc_zchi2',R+'zscan.py'),('solve_matrices',R+'zscan.py'),('spectral_data',R+'zscan.py'),('dot_product_sparse_one',R+'zscan.py')],['zchi2 and zcoeff returned by the scan'])
prop('C04','Minimum finding returns exactly the local minima; the parabola fit is faithful',
 'The list of candidate minima of a chi2 curve contains each grid point that is not higher than its existing neighbours exactly once and nothing else, ordered from the deepest to the shallowest. The parabola fitted around a minimum passes through the three points, its vertex, height and width are those of that parabola, and it is flagged bad exactly when it has fewer than three points, no curvature or opens downward, a vertex outside the fitted points, or a height that is not positive.',
 ['inputs'],'every finite chi2 curve of length >= 1 (ties and plateaus included); every three points with distinct abscissae',
 'The tests look at a few hand-written curves; ties, plateaus, edges and every curve length are a universal claim.',
 [R+'fitz.py'],[('find_minima',R+'fitz.py'),('minfit',R+'fitz.py')],['return values of find_minima and minfit'])
prop('C05','Refined candidates are few, well separated, in order and correctly flagged',
 'For every target and template the refined redshift candidates number at most the requested maximum, any two differ in velocity by at least 1000 km/s (100 km/s for stars), and they are listed in order of increasing chi2. A candidate in the first or last interval of the scanned redshift range carries the fit-limit warning, and one whose parabola failed carries the bad-minimum warning. A candidate without a bad-minimum warning has the coefficients of the fit to the data at its own redshift, and its pixel count is the number of pixels with positive weight.',
 ['inputs'],'every chi2 curve, redshift grid, spectrum, template type and requested number of minima',
 'The tests run two synthetic objects with an easily separated minimum.',
 [R+'fitz.py',R+'constants.py'],[('fitz',R+'fitz.py'),('get_dv',R+'fitz.py'),('minfit',R+'fitz.py')],['columns z, chi2, zwarn, coeff, npixels of the per-template fit'])
prop('C06','Ranking puts good fits first; delta-chi2 uses the next distinct good fit',
 'Ranking candidates keeps every row intact and orders them with fits carrying no bad-fit warning before those that do, each group by increasing chi2. For each ranked candidate delta-chi2 is the smallest chi2 increase to a later candidate that is free of bad-fit warnings and farther away in velocity than the limit of the pair (0 when there is none). The small-delta-chi2 flag is raised exactly for candidates for which some other bad-fit-free candidate at or beyond the velocity limit has a chi2 within 9.',
 ['inputs'],'every table of candidates (any length, any warning bits, chi2, redshifts and velocity limits)',
 'The tests use a few short hand-made tables.',
 [R+'zfind.py',R+'zwarning.py',R+'constants.py'],[('sort_zfit',R+'zfind.py'),('sort_zfit_dict',R+'zfind.py'),('sort_dict_by_cols',R+'zfind.py'),('sort_dict_by_col',R+'zfind.py'),('calc_deltachi2',R+'zfind.py')],['sorted tables; deltachi2 and its flag'])
prop('C07','Every target gets a complete, consistently ranked result table',
 'The final table lists, for every target, candidates numbered 0,1,2,... in ranking order, at most the requested maximum per spectral type and never omitting a better-ranked candidate in favour of a worse one of the same type, each row carrying the values of one refined candidate of that target; when archetypes are given for some or all of the spectral types, that includes its Legendre coefficients (zero for candidates of types without archetypes) and the coefficients, type and subtype of the template it was found with. A row carries the no-data warning exactly when no pixel has positive weight, and the little-coverage warning exactly when the number of such pixels is less than ten times the number of coefficients of its fit.',
 ['inputs','configurations'],'every set of targets and templates, archetypes for any of the types, any number of subtypes per type, any requested maximum; each target has at least one refined candidate',
 'The tests run a few fake targets with two templates; trimming and numbering depend on how many subtypes and minima each target has.',
 [R+'zfind.py'],[('zfind',R+'zfind.py'),('sort_zfit_dict',R+'zfind.py'),('calc_deltachi2',R+'zfind.py')],['table returned by zfind'])
prop('C08','Redshift priors have their declared shape; tophat keeps minima in its window',
 'The Gaussian and Lorentzian priors are non-negative, zero exactly at the prior mean, symmetric about it, non-decreasing with distance from it, and equal to (dz/sigma)^2 and 2 ln(1+(dz/sigma)^2). The tophat prior adds nothing to the grid points inside its window except that, next to each window end, one bounding point is infinite and all remaining outside points are undefined, so that every chi2 minimum selected from the sum lies inside the window. A target without an entry in the prior file gets no prior.',
 ['inputs'],'every redshift grid of at least three points, prior mean and positive width',
 'No test covers priors against arbitrary grids; the interplay with minimum selection is a property of every curve and window.',
 [R+'priors.py',R+'fitz.py'],[('Priors.gaussian',R+'priors.py'),('Priors.lorentzien',R+'priors.py'),('Priors.tophat',R+'priors.py'),('Priors.eval',R+'priors.py')],['return value of Priors.eval; minima of the penalised chi2'])
prop('C09','Work distribution assigns every unit exactly once and balances the load',
 'Distributing work units over processes gives one list per process, and every unit appears in exactly one of the lists exactly once. Units are placed in order of decreasing weight, each on a process whose normalised load after receiving it is the smallest possible at that moment. With equal capacities the loads of any two processes therefore differ by no more than the largest weight.',
 ['inputs'],'any number of processes >= 1, any list of distinct units, any positive weights and capacities',
 'The tests try a few small lists.',
 [R+'utils.py',R+'targets.py'],[('distribute_work',R+'utils.py'),('distribute_targets',R+'targets.py')],['return value of distribute_work / distribute_targets'])
prop('C10','Results do not depend on how many processes are used',
 'The scan assigns to each target, for every number of worker processes and every order in which workers finish, the chi2 curve computed from that target\'s own spectra, identical to the single-process result. When the redshift range is split among communicating processes, every process sees every slice exactly once before the scan ends and the slices are reassembled in redshift order without gaps or overlaps. A run that takes its scan from the details file of an earlier one fits, with any number of processes, each of its targets from the curves stored for that target.',
 ['schedules','configurations','inputs'],'every number of processes (for communicating processes, at most the number of trial redshifts), every set of targets with any numbers of spectra, every completion order of the workers',
 'The tests use targets with equal numbers of spectra and a single completion order; the mapping from worker output to target depends on the work distribution.',
 [R+'zscan.py',R+'templates.py',R+'targets.py',R+'zfind.py'],[('calc_zchi2_targets',R+'zscan.py'),('_mp_calc_zchi2',R+'zscan.py'),('DistTemplate.cycle',R+'templates.py'),('DistTemplate.__init__',R+'templates.py'),('_mp_fitz',R+'zfind.py'),('read_zscan_redrock',R+'results.py')],['per-target zchi2 / zcoeff / penalty / zfit'])
prop('C11','Coadding is the inverse-variance weighted mean per wavelength grid',
 'Coadding a target replaces the spectra sharing a wavelength grid by one spectrum whose weight is the sum of their weights (zero at pixels whose combined resolution row sums to less than 0.99) and whose flux is their inverse-variance weighted mean, or the plain mean where all weights are zero, with the resolution combined with the same weights; distinct grids stay separate and keep the order of first appearance. With cosmic-ray rejection, only weights of pixels inconsistent between exposures are set to zero, so fully measured exposures that agree are never masked, and no other data change.',
 ['inputs'],'any number of exposures and grids, all fluxes, weights (zeros included) and resolution matrices',
 'The tests coadd a couple of synthetic exposures with smooth flux.',
 [R+'targets.py'],[('Target.compute_coadd',R+'targets.py'),('Spectrum.__init__',R+'targets.py')],['Target.spectra after coadding'])
prop('C12','Packing spectra for sharing and unpacking them preserves the data',
 'After packing a spectrum into shared memory and unpacking it again, wavelength, flux, weights and resolution (in both stored forms, if both were present) equal the originals, and repeated packing or unpacking changes nothing. Any interleaving of pack, unpack and use of the resolution leaves the same data.',
 ['inputs','histories'],'all array sizes (including empty), dtypes and contents, and all sequences of pack/unpack/use operations',
 'The tests pack and unpack one spectrum once.',
 [R+'targets.py',R+'utils.py'],[('Spectrum.sharedmem_pack',R+'targets.py'),('Spectrum.sharedmem_unpack',R+'targets.py'),('mp_array',R+'utils.py')],['attributes of Spectrum'])
prop('C13','Scan details written to file read back as the same results',
 'Writing scan results to a details file and reading them back returns, for every target and template, the same redshift grid, chi2, penalty and coefficients, and the same candidate table, up to the single precision used in the file (columns without any values are left out). Selecting a subset of targets returns exactly those targets with their own values. The output path never holds a partially written file: an interrupted write leaves no file at that path, or the previous one.',
 ['inputs','crash_points'],'every set of targets, templates, candidates, every selection of targets, every point at which writing can be interrupted',
 'The tests read one stored file and write/read one result set.',
 [R+'results.py'],[('write_zscan',R+'results.py'),('read_zscan',R+'results.py'),('read_zfit',R+'results.py'),('read_zscan_redrock',R+'results.py')],['values read back; directory content during a write'])
prop('C14','Archetype fits keep coefficients attached to the right camera and archetype',
 'For per-camera archetype fits, the returned coefficient vector lists the archetype coefficients first and then one block of Legendre coefficients per camera in alphabetical camera order, each block being the one that multiplies that camera\'s polynomials, whatever the order of the spectra. Splitting the vector returns those parts without loss, and the selected archetype is one with the lowest chi2, reported with its own coefficients and type. Regularisation is added to Legendre coefficients only, never to archetype coefficients.',
 ['inputs','configurations'],'every order of cameras, number of Legendre terms, archetypes and neighbours, all data',
 'The tests fit one galaxy with one camera order.',
 [R+'zscan.py',R+'archetypes.py',R+'fitz.py'],[('per_camera_coeff_with_least_square_batch',R+'zscan.py'),('split_archetype_coeff',R+'archetypes.py'),('Archetype.get_best_archetype',R+'archetypes.py'),('prior_on_coeffs',R+'fitz.py')],['coefficients, chi2 and type returned by the archetype fit'])
prop('C15','The evaluated best-fit model is the model that was fitted',
 'Evaluating a stored best fit (type, redshift, coefficients) for a target\'s spectra reproduces the model the fit used: the linear combination of the template vectors rebinned at that redshift, multiplied by the IGM transmission of the template and convolved with the resolution of each spectrum, including the Legendre terms of the matching camera for archetype fits. Unused trailing coefficients are ignored and an all-zero fit (Legendre terms included) gives a zero model. Each model is stored under its own spectrum.',
 ['inputs','configurations'],'every template, coefficient vector, redshift, IGM model, number and order of spectra',
 'The tests compare one low-redshift model to a smoothed curve; agreement at high redshift and in every camera order is untested.',
 [R+'templates.py',R+'targets.py',R+'archetypes.py'],[('Template.eval',R+'templates.py'),('eval_model',R+'templates.py'),('Target.eval_model',R+'targets.py'),('DistTargets.eval_models',R+'targets.py'),('Archetype.eval',R+'archetypes.py')],['model arrays'])
prop('C16','Untrustworthy pixels never carry weight, trustworthy ones keep theirs',
 'When a spectrum is built, every pixel whose resolution-matrix row sums to less than 0.99 gets zero weight, and every other pixel keeps its weight; wavelengths and fluxes are unchanged. Spectra with the same wavelength grid are treated as one group, and those with a named camera are grouped by camera.',
 ['inputs'],'all wavelength grids, fluxes, weights and resolution matrices',
 'The tests build spectra with perfect resolution matrices only.',
 [R+'targets.py',R+'constants.py'],[('Spectrum.__init__',R+'targets.py')],['ivar, wavehash of Spectrum'])
prop('C17','Warning bits are distinct powers of two; bad-fit covers exactly its causes',
 'Every warning has its own bit, distinct from all others, and the list of warnings is complete and ordered by bit value. The bad-fit mask consists of exactly negative model, many outliers, fit limit, negative emission and bad minimum. Bits reserved for downstream use (16 to 23) overlap no other warning.',
 ['inputs'],'all pairs of warning flags and all warning words',
 'No test covers the disjointness of the flags.',
 [R+'zwarning.py'],[('ZWarningMask',R+'zwarning.py'),('badfit_mask',R+'zwarning.py')],['values of the mask constants'])
prop('C18','Identifiers survive packing, formatting and parsing',
 'A BOSS plate, MJD and fibre packed into one target identifier unpack to the same three numbers, and different triples give different identifiers. A template type formatted from spectral type and subtype parses back to the same pair, with a missing and a blank subtype treated alike. Template file names derived from an output header correspond one to one, in order, to the templates recorded in it.',
 ['inputs'],'all plate, MJD, fibre numbers in the survey ranges; all type/subtype strings without the separator; all headers',
 'The tests try one identifier and a few type strings.',
 [R+'external/boss.py',R+'templates.py'],[('platemjdfiber2targetid',R+'external/boss.py'),('targetid2platemjdfiber',R+'external/boss.py'),('parse_fulltype',R+'templates.py'),('make_fulltype',R+'templates.py'),('header2templatefiles',R+'templates.py')],['return values'])
prop('C19','The negative-[OII] penalty and Legendre abscissae obey their bounds',
 'The penalty for unphysical [OII] emission is never negative, is zero whenever the summed model emission around [OII] is not negative, and otherwise equals its absolute value. The reduced wavelength used for polynomial terms is -1 at the shortest, +1 at the longest wavelength, linear in between, and therefore always in [-1,1].',
 ['inputs'],'all coefficient arrays and [OII] template cut-outs; all wavelength arrays with at least two distinct values',
 'The tests never evaluate the penalty with mixed signs nor the bounds of the reduced wavelength.',
 [R+'zscan.py',R+'utils.py'],[('calc_negOII_penalty',R+'zscan.py'),('reduced_wavelength',R+'utils.py')],['return values'])
prop('C20','DESI spectra reach the target that owns them; unusable pixels carry no weight',
 'Reading DESI spectra or coadd files groups every row under the target identifier recorded for it: each requested target is held by exactly one process, targets keep the order of first appearance over the files, and a target\'s spectra are its own rows, in order of file, camera and row, each with the wavelengths of its camera and its own fluxes, weights and resolution. Pixels whose flux or weight is not finite, whose mask is set, whose flux is more negative than the threshold allows, or whose resolution row sums to less than 0.99 get zero weight (and a flux that is not finite becomes zero); every other pixel keeps flux and weight. The fibermap, exposure fibermap and score tables keep exactly the rows of the selected targets, in file order. Neither the number of processes, the order of the HDUs, nor which cameras have a mask changes any of this.',
 ['inputs','configurations','schedules'],'all sets of DESI files coadded alike with the same table columns, all selections of targets they contain, all camera and mask layouts, all pixel values, any number of MPI processes',
 'The tests read one small file of identical layout with complete masks and clean pixels on one process.',
 [R+'external/desi.py',R+'targets.py'],[('DistTargetsDESI.__init__',R+'external/desi.py'),('Spectrum.__init__',R+'targets.py'),('Target.__init__',R+'targets.py')],['local() targets and their spectra, all_target_ids, fibermap, exp_fibermap, tsnr2'])
prop('C21','The DESI catalogue: one flagged row per target, models in their rows',
 'The DESI redshift catalogue has exactly one row per target, the best candidate with that candidate\'s values. Warning bits follow the fibermap: POORPOSITION sets POORDATA; BADPOSITION, BROKENFIBER, UNASSIGNED or an object type other than TGT and SKY sets NODATA; BROKENFIBER sets UNPLUGGED; object type SKY sets SKY; a bad amplifier (or bad column) sets LITTLE_COVERAGE; another object type sets BAD_TARGET; no other bit and no other target is touched. Rows with NODATA have redshift 0, type GALAXY, blank subtype, zero coefficients and fit method NONE; all others keep redshift, type, coefficients and method of the fit. The details file gets the same flags for every candidate. Pixels in the two night-sky windows (5572-5582 and 9792-9795 Angstrom) have no weight in the fit unless that is turned off, and other pixels keep theirs. The model file has, for every camera, the model of each target in the row of that target, however the targets were distributed over processes. The catalogue and model files appear complete or not at all, and an interrupted write does not disturb the next one.',
 ['inputs','configurations','schedules','crash points'],'all fiber status words and object types, all fit results, any distribution of targets over processes (including processes without targets), a failure or stop at any file operation',
 'The tests run one small simulated file without bad fibers on one process and check that the outputs exist.',
 [R+'external/desi.py'],[('rrdesi',R+'external/desi.py'),('write_zbest',R+'external/desi.py'),('write_bestmodel',R+'external/desi.py'),('_get_header',R+'external/desi.py')],['REDSHIFTS table, details file and model file; weights seen by zfind'])
prop('C22','A template file is loaded as the template it describes',
 'Loading a template file gives its vectors and wavelengths (on a linear or a logarithmic grid, as recorded), its type and subtype in upper case, its fitting method (PCA if none is recorded; others than PCA and NMF are refused) and its absorption model: the recorded one or, if none is recorded, none for stars, Calura12 for galaxies of version 2.6, Calura12 for quasars of version 0.1 or 1.0, Kamble20 for version 1.1, and otherwise the file is refused. The trial redshifts are those recorded in the file; if it has none, those of the range requested for its type (equal steps of log10(1+z), of z for stars, below the requested maximum) or the usual grid of its type. A file that does not exist raises IOError, an unusable one ValueError. A set of templates is the files listed by templates-default.txt or another list (in order, without comments and blank lines, names relative to the list, missing files refused), or else all template files of the directory in sorted order. Every process gets the same templates in the same order, with slices that together make up each redshift grid.',
 ['inputs','configurations'],'all basis vectors, wavelength grids, redshift grids and requested ranges; all combinations of recorded keywords; all lists and directories of files; any number of MPI processes',
 'The tests load the installed templates only and look at a few attributes.',
 [R+'templates.py'],[('Template.__init__',R+'templates.py'),('find_templates',R+'templates.py'),('load_templates_from_header',R+'templates.py'),('load_dist_templates',R+'templates.py'),('DistTemplate.__init__',R+'templates.py')],['attributes of Template; lists returned by find_templates and load_dist_templates'])
prop('C23','BOSS spectra reach the target that owns them',
 'Reading BOSS plate files gives one target per fiber, identified by plate, date and fiber, or, with several plates, by the THING_ID that each plate gives its fibers, so that observations of one object meet in one target. With --use-frames the spectra are those of all exposures named by the header of the plate, camera by camera; spectrograph 2 stores fiber f in row (f-1) mod 500. Each spectrum has the wavelengths, flux and weight of the row of its fiber between the pixels nearest to 3500 and 10000 Angstrom (3500-6000 for blue frames, 5500-10000 for red ones); weights are zero where the mask is set, if that is asked for. Its resolution is a Gaussian of the dispersion of that fiber at each pixel (2 pixels where none is recorded), each column normalised to 1. Only requested targets and fibers are read; targets are in order of their ids and carry plate and date. rrboss fits the selected targets (by id, by range, or all), each on one process with its own spectra; the catalogue has one row per target, its best candidate, all values unchanged under upper-case names; the details file has every candidate; an output file is complete or absent whenever the program is interrupted.',
 ['inputs','configurations','crash points'],'all pixel values, dispersions, masks and numbers of pixels; all plates, fibers and exposures; all selections; any number of MPI processes; interruption at any file operation',
 'The BOSS reader and program have no test at all.',
 [R+'external/boss.py',R+'targets.py'],[('read_spectra',R+'external/boss.py'),('platemjdfiber2targetid',R+'external/boss.py'),('rrboss',R+'external/boss.py'),('write_zbest',R+'external/boss.py'),('DistTargetsCopy.__init__',R+'targets.py')],['targets returned by read_spectra, the ZBEST table and details file written by rrboss'])
prop('C24','An archetype file is loaded as the archetypes it describes',
 'Each row of an archetype file becomes one archetype: the flux of that row on the wavelengths of the file (linear or logarithmic, as recorded), the spectral type of the file, the subtype of the row made unique by the number of the row (ELG_0, ELG_1, ...), and the full name made of both, under which the fit reports it and it is found again for evaluation. Rebinned to wavelength grids at a redshift, column k holds the k-th archetype (of all, or of those asked for, in that order): its bin averages, or, if asked for, its linear interpolation, at that redshift. A collection holds the archetypes of each file under their spectral type. The files are the one named, or all rrarchetype-*.fits files of the directory named, else of $RR_ARCHETYPE_DIR, else of the installation, in the order of their names; having no such place is an error.',
 ['inputs','configurations'],'all fluxes, numbers of archetypes and pixels, wavelength grids, subtypes, redshifts and selections of archetypes; all directories of files',
 'The tests load one small file and look at no values.',
 [R+'archetypes.py'],[('Archetype.__init__',R+'archetypes.py'),('Archetype.rebin_template_batch',R+'archetypes.py'),('Archetype.rebin_template',R+'archetypes.py'),('All_archetypes.__init__',R+'archetypes.py'),('find_archetypes',R+'archetypes.py')],['attributes of Archetype, arrays returned by rebin_template_batch, dictionary of All_archetypes'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
