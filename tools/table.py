# P(id, title, statement, over, quantifier text, why tests can't, files, mechanism, technique, note)

P('C01', 'Workspace files restore every stored quantity of the workspace',
  'A curved-sky, flat-sky or covariance workspace written to a FITS file and read back has the same '
  'value in every member: every quantity the writer stores is read back into the member it came from, '
  'and every quantity a later operation uses is stored. Results computed from a restored workspace '
  'are therefore the ones the original would give.',
  ['inputs', 'histories'], 'all workspaces (spins, binnings, beams, purification, catalogues), both '
  'with and without the unbinned matrix',
  'Tests write and read a handful of workspaces and compare one or two results; a member that is '
  'stored wrongly but not used by that test goes unnoticed.',
  ['src/nmt_io.c', 'pymaster/workspaces.py', 'pymaster/covariance.py'],
  [('nmt_workspace_write_fits / nmt_workspace_read_fits and siblings', 'src/nmt_io.c')],
  'symbolic value-flow analysis of the C writers and readers over abstract FITS files',
  'Writer and reader are composed over an abstract file (header units, columns, keywords, declared '
  'types and precisions) and every member is compared with its original value for symbolic sizes; '
  'bandpowers for four given shapes with symbolic weights. CFITSIO itself is modelled; numbers in '
  'header keywords are taken as exact. Files of the old format are outside the property.')

P('C02', 'Failed reads and writes of workspace files are always reported',
  'If anything goes wrong while a workspace or covariance file (curved-sky or flat-sky) is written or read '
  '(the file cannot be created or opened, the disk is full, a close fails, a required extension, keyword or column '
  'is missing or of the wrong shape, data are truncated), the operation ends in an exception in '
  'Python and never returns normally as if the file had been written or read; while reading, no '
  'size or array is used before the read that should have provided it is known to have '
  'succeeded; and an error reported by a native routine always reaches the caller as an exception.',
  ['inputs', 'fault_sequences'], 'a failure at any one of the file operations, in every kind of file and with '
  'every option',
  'Tests check only a missing input file; a status dropped after one of many file operations shows only '
  'when exactly that operation fails.',
  ['src/nmt_io.c', 'pymaster/namaster_wrap.c', 'pymaster/workspaces.py', 'pymaster/covariance.py'],
  [('nmt_workspace_write_fits / nmt_workspace_read_fits and siblings', 'src/nmt_io.c'),
   ('error handling of native functions', 'pymaster/namaster_wrap.c')],
  'fault-propagation dataflow over the C readers and writers with a sticky-status model of the file '
  'library, plus exception-boundary analysis of the wrapper',
  'One failure per operation is assumed at a time; the optional table of old files (a missing keyword with status '
  '202) is the documented exception. The file library is modelled.')

P('C11', 'Binned matrix and its factorisation follow every workspace update',
  'After a workspace is created, or its beams, its bandpowers or its unbinned coupling matrix are '
  'replaced, decoupling and bandpower window functions use the binned coupling matrix (and its '
  'factorisation) of the current unbinned matrix, the current beams and the current bandpowers. '
  'Coupling, decoupling and bandpower windows are the linear maps those matrices define, and a '
  'workspace keeps its own copies of the beams and bandpowers it was given. The same holds for '
  'flat-sky workspaces and their coupling and decoupling operations.',
  ['inputs', 'histories'], 'all sequences of create / update operations, all multipole ranges, '
  'bandpower schemes, weights and beams, for all supported spin combinations',
  'Tests exercise single updates on one small configuration and compare at a finite set of '
  'multipoles; a stale factorisation shows only in later decoupling after a particular history.',
  ['src/nmt_master.c', 'pymaster/workspaces.py'],
  [('nmt_update_coupling_matrix, nmt_workspace_update_beams, nmt_workspace_update_binning',
    'src/nmt_master.c'),
   ('nmt_couple_cl_l, nmt_decouple_cl_l, nmt_compute_bandpower_windows', 'src/nmt_master.c')],
  'symbolic value-flow analysis of the C sources against reference formulas, plus typestate of the '
  'factorisation',
  'For symbolic multipole ranges and bandpowers, every element of the binned matrix, of the coupled '
  'and decoupled spectra and of the window functions is shown to be the reference formula over the '
  'current inputs. The GSL factorisation and solvers are assumed correct.')

P('C12', 'Coupling matrices mix exactly the physically allowed spectra',
  'Every element of the unbinned mode-coupling matrix, for any two fields of any spins, any E/B '
  'purification flags, spin-0/spin-2 combined (TEB) mode and anisotropic masks, equals the '
  'pseudo-spectrum coupling coefficient of that pair of multipoles (for flat-sky workspaces, of that pair '
  'of Fourier modes or bandpowers) and that pair of spectra: the right '
  'mask spectrum, Wigner-3j product, parity selection, sign, purification factor and beam-independent '
  'normalisation.',
  ['inputs', 'configurations'], 'all multipole pairs, all spin pairs (including odd spins), all '
  'combinations of purification flags, all masks',
  'Tests compare a few entries at tiny nside against stored benchmarks for the usual spins; entries for '
  'odd spins, mixed purification or anisotropic masks have no oracle.',
  ['src/nmt_master.c', 'src/utils.c', 'pymaster/workspaces.py'],
  [('nmt_compute_coupling_matrix, nmt_compute_coupling_matrix_anisotropic', 'src/nmt_master.c'),
   ('nmt_compute_master_coefficients', 'src/nmt_master.c')],
  'symbolic value-flow analysis of the C sources against reference formulas',
  'All multipoles are symbolic; spins and flags are enumerated (spins up to 3). The Toeplitz '
  'approximation is outside this property. Wigner-3j values are an uninterpreted function.')


P('C13', 'Gaussian covariances contain both Wick pairings of every component',
  'For any four fields (spins 0 and 2 in any combination), the Gaussian covariance of the spectra of '
  'fields (a,b) and (c,d) is the sum of the (ac)(bd) and (ad)(bc) pairings over all polarisation '
  'components: each pairing combines the symmetrised spectra of the right field pairs with the coupling '
  'coefficient of the product of the masks that appear together and of the spins of those fields '
  '(spin-0, mixed, and the even and odd spin-2 coefficients with their published signs); elements are '
  'ordered as (bandpower, component of the first field, component of the second) on both sides, averaged '
  'with the weights of the bandpowers and multiplied by the inverse coupling matrices of both workspaces. '
  'The coupled covariance has the same elements per multipole, zero where no bandpower uses the '
  'multipole. The same holds for flat-sky covariances with the bandpowers of the spectra.',
  ['inputs', 'configurations'], 'all spectra, masks, bandpower schemes, workspaces and spin combinations',
  'Benchmarks compare the first diagonals of five spin combinations with equal masks; a swapped pairing, '
  'component or sign shows only with four different masks or non-zero EB spectra.',
  ['src/nmt_covar.c', 'src/nmt_covar_flat.c', 'src/utils.c', 'pymaster/covariance.py'],
  [('nmt_compute_gaussian_covariance[_coupled], nmt_covar_workspace_init', 'src/nmt_covar.c'),
   ('nmt_compute_gaussian_covariance_flat, nmt_covar_workspace_flat_init', 'src/nmt_covar_flat.c'),
   ('cov_get_coupling_pair_index', 'src/utils.c')],
  'symbolic value-flow analysis of the C sources against reference formulas, abstract interpretation of '
  'the Python layer',
  'Sizes, multipoles, bandpowers and spectra are symbolic; the spin combinations are enumerated (11 of '
  'the 16 in the quick check, all in the thorough one). GSL matrix products are modelled, its inverse '
  'is uninterpreted. The accuracy of the narrow-kernel approximation itself is outside the property.')


PYN = ('The whole Python layer is interpreted abstractly with symbolic arrays, sizes and numbers; '
       'native routines, numpy, healpy and ducc0 operations are modelled or uninterpreted. Spins, '
       'flags and kinds of input are enumerated.')

P('C07', 'Incompatible inputs are rejected before any native computation',
  'Maps, masks, templates, spectra, beams, bandpowers, fields and workspaces that do not fit each '
  'other (number of components for the spin, map sizes, band limits, pixelisations, missing maps, '
  'number of spectra or multipoles, workspaces not yet computed or read, unsupported anisotropic or '
  'Toeplitz settings) end in a Python exception and never reach a native routine; inputs that do fit '
  'are accepted.',
  ['inputs', 'configurations'], 'all combinations of array sizes, spins, flags and workspace states',
  'Tests try a few wrong inputs; a missing or wrong condition only matters for the combination it '
  'was meant for, and then reads or writes out of bounds in native code.',
  ['pymaster/field.py', 'pymaster/workspaces.py', 'pymaster/covariance.py', 'pymaster/utils.py'],
  [('NmtField, NmtFieldFlat constructors', 'pymaster/field.py'),
   ('NmtWorkspace and NmtCovarianceWorkspace entry points', 'pymaster/workspaces.py')],
  'abstract interpretation of the Python layer against reference code (exception conditions)', PYN)

P('C08', 'Native routines get the right data, parameters and sizes',
  'Every call from Python into the C library passes the arrays, spins, flags, sizes and file names '
  'the caller gave, in the positions the C routine expects them, asks for an output array of exactly '
  'the size the routine fills, and returns that output unchanged and in the right shape.',
  ['inputs', 'configurations'], 'all array sizes, spins, flags and kinds of field',
  'Swapped or stale arguments and wrong output sizes show only for particular sizes, spins or '
  'flags; tests use one or two.',
  ['pymaster/workspaces.py', 'pymaster/covariance.py', 'pymaster/utils.py',
   'pymaster/bins.py', 'pymaster/namaster_wrap.c'],
  [('calls to nmtlib', 'pymaster/workspaces.py'), ('wrapper helpers', 'pymaster/namaster_wrap.c')],
  'abstract interpretation of the Python layer and the wrapper sources against reference code', PYN)

P('C14', 'Fields hold masked, deprojected, purified multipoles of the input maps',
  'A field holds the multipoles of its maps multiplied by the mask (once, even if given masked), '
  'with the templates removed by the least-squares fit under the mask, B/E purified where requested '
  'and with the beam and sign conventions of the input; its maps, templates and mask are those '
  'quantities, for curved-sky, CAR, anisotropically weighted and flat-sky fields, with or without '
  'maps, and in the light-weight mode; the multipoles it keeps of its templates are those of the masked '
  '(and purified) templates.',
  ['inputs', 'configurations'], 'all maps, masks, templates, spins, purification flags, pixelisations, '
  'iteration counts',
  'Tests cover a few combinations of options with one map each; most combinations (purification '
  'with templates, masked input, light-weight fields) have no oracle.',
  ['pymaster/field.py', 'src/nmt_field_flat.c', 'src/flatsky_utils.c'],
  [('NmtField.__init__, _purify', 'pymaster/field.py'),
   ('nmt_field_flat_alloc', 'src/nmt_field_flat.c')],
  'abstract interpretation of the Python layer and value-flow summaries of the C sources, against reference code', PYN)

P('C15', 'Omitted arguments take the documented defaults, read at call time',
  'A call that leaves out an optional argument (iteration counts, tolerances, band limits, '
  'number of guesses, transform library) gives the result of the call that passes the documented '
  'default; module-wide defaults set with set_n_iter_default, set_tol_pinv_default and '
  'set_sht_calculator hold for every later call and are checked.',
  ['inputs', 'histories'], 'all histories of default-setting calls, all inputs',
  'Tests set a default and read it back; a default bound when a function is defined, or not passed '
  'on by one constructor, shows only after a particular history.',
  ['pymaster/utils.py', 'pymaster/field.py', 'pymaster/workspaces.py'],
  [('NmtParams, set_n_iter_default, set_tol_pinv_default', 'pymaster/utils.py'),
   ('map2alm, alm2map', 'pymaster/utils.py')],
  'abstract interpretation of the Python layer against reference code', PYN)

P('C16', 'Accessors return the quantity they name, every time',
  'get_maps, get_alms, get_templates, get_mask, get_mask_alms, their anisotropic versions, the '
  'catalogue accessors, the bandpower accessors and the public attributes of fields return the '
  'quantity they name, the same on every call and in every order of calls, or raise where the field '
  'does not have it.',
  ['inputs', 'histories'], 'all kinds of field, all sequences of accessor calls',
  'Tests call an accessor once on a few kinds of field; lazily computed members can go stale or be '
  'returned for the wrong field kind.',
  ['pymaster/field.py', 'pymaster/bins.py'],
  [('NmtField.get_*', 'pymaster/field.py'), ('NmtBin.get_*', 'pymaster/bins.py')],
  'abstract interpretation of the Python layer against reference code', PYN)

P('C19', 'Spectra keep one order of component pairs everywhere',
  'Pseudo-spectra, biases, couplings, decouplings, window functions, binned spectra and covariances '
  'take and return spectra in the same order: component of the first field major, component of the '
  'second field minor (e.g. EE, EB, BE, BB), multipoles or bandpowers last.',
  ['inputs', 'configurations'], 'all spin pairs, all numbers of multipoles or bandpowers',
  'Tests mostly use spectra in which swapped components are equal or zero (EB = BE = 0).',
  ['pymaster/workspaces.py', 'pymaster/covariance.py', 'src/flatsky_utils.c', 'src/nmt_master.c'],
  [('compute_coupled_cell, decouple_cell', 'pymaster/workspaces.py'),
   ('fs_alm2cl', 'src/flatsky_utils.c')],
  'abstract interpretation of the Python layer and symbolic value-flow analysis of the C sources', PYN)

P('C20', 'Catalogue fields are sums over sources with shot noise removed once',
  'Multipoles of a catalogue field or of a clustering field are the weighted sums over its sources '
  '(and randoms or mask) at their positions, with the noise bias of the catalogue and of its mask '
  'computed from the weights, subtracted once in auto-spectra and mode-coupling matrices and never '
  'in cross-spectra, and with templates removed where given.',
  ['inputs', 'configurations'], 'all catalogues, spins, weights, units of position, masks or randoms',
  'Tests use a few random catalogues and compare to tolerance; wrong noise terms are small there.',
  ['pymaster/field.py', 'pymaster/workspaces.py', 'pymaster/utils.py'],
  [('NmtFieldCatalog, NmtFieldCatalogClustering', 'pymaster/field.py'),
   ('_catalog2alm_ducc0', 'pymaster/utils.py')],
  'abstract interpretation of the Python layer against reference code', PYN)

P('C21', 'Bandpowers contain exactly the multipoles and weights they were given',
  'For every constructor, a bandpower contains the multipoles given for it, once, with weights '
  'normalised to one and the requested l-dependent prefactor; the accessors report these, binning a '
  'spectrum is the weighted mean over them and unbinning assigns each multipole the value of its '
  'bandpower and zero outside.',
  ['inputs'], 'all lists of multipoles, bandpower indices, weights, edges and prefactors',
  'Tests use regular binnings from l=2; gaps, single-multipole bandpowers, the first and last '
  'multipole and unequal weights are not covered.',
  ['pymaster/bins.py', 'src/nmt_bins.c'],
  [('NmtBin constructors and methods', 'pymaster/bins.py'),
   ('nmt_bins_create, nmt_bin_cls, nmt_unbin_cls', 'src/nmt_bins.c')],
  'abstract interpretation of the Python layer and symbolic value-flow analysis of the C sources', PYN)

P('C22', 'Apodisation and pixel sizes follow the requested scale and pixelisation',
  'Apodisation returns a new mask of the same size and leaves its input alone, uses the requested '
  'method and angular scale in radians and the pixel separations of the map, and multiplies the mask '
  'by the apodisation function of the distance to masked pixels.',
  ['inputs'], 'all masks, scales, methods and map sizes',
  'Tests apodise one mask per method and compare to stored values at one scale.',
  ['pymaster/utils.py', 'src/nmt_mask.c', 'src/nmt_mask_flat.c'],
  [('mask_apodization, mask_apodization_flat', 'pymaster/utils.py'),
   ('nmt_apodize_mask', 'src/nmt_mask.c')],
  'abstract interpretation of the Python layer and symbolic value-flow analysis of the C sources',
  'Distances on the sphere are an uninterpreted function; the neighbour search is trusted.')

P('C23', 'Map geometry and transforms follow the pixelisation of the map',
  'Maps in HEALPix or in a rectangular (CAR, Clenshaw-Curtis and Fejer) projection, flipped in '
  'either axis or covering part of the sky, are laid out, transformed, multiplied and integrated on '
  'the rings and with the pixel areas of their own pixelisation; unsupported geometries are '
  'rejected, and two geometries are compatible exactly if all their parameters agree.',
  ['inputs', 'configurations'], 'all supported headers, sizes, spins and band limits',
  'Tests use one full-sky header; flips, partial skies and odd sizes take other branches.',
  ['pymaster/utils.py'],
  [('NmtMapInfo', 'pymaster/utils.py'), ('map2alm, alm2map', 'pymaster/utils.py')],
  'abstract interpretation of the Python layer against reference code', PYN)

P('C24', 'Simulated maps have the requested spectra, beams, components and seed',
  'synfast_spherical and synfast_flat return one map per component of the requested spins, drawn '
  'from the requested (symmetric) matrix of spectra in the documented order, smoothed with the beam '
  'of each field and with nothing else, and the same maps for the same seed; spectra or beams of the '
  'wrong number or length are rejected.',
  ['inputs', 'configurations'], 'all spin lists, spectra, beams and seeds',
  'Tests check the power of one simulation to tolerance.',
  ['pymaster/utils.py', 'src/nmt_field_flat.c', 'src/flatsky_utils.c'],
  [('synfast_spherical, synfast_flat', 'pymaster/utils.py'), ('fs_synalm', 'src/flatsky_utils.c')],
  'abstract interpretation of the Python layer and value-flow summaries of the C sources, against reference code', PYN)

P('C25', 'Deprojection and noise biases are those of the templates and spectra given',
  'The deprojection bias returned for two fields is the bias that removing their templates by '
  'the weighted least-squares fit causes for the given signal spectra, including purification, and '
  'the noise deprojection bias is that of the given noise variance map; both vanish without templates, '
  'and are subtracted once where a function takes spectra with biases.',
  ['inputs', 'configurations'], 'all spins, numbers of templates, masks, purification flags, spectra',
  'Tests use templates of one spin pair and a loose tolerance.',
  ['pymaster/workspaces.py', 'src/nmt_master_flat.c'],
  [('deprojection_bias, uncorr_noise_deprojection_bias', 'pymaster/workspaces.py'),
   ('nmt_compute_deprojection_bias_flat', 'src/nmt_master_flat.c')],
  'abstract interpretation of the Python layer and value-flow summaries of the C sources, against reference code', PYN)

P('C03', 'Native objects are released once, and never used after that',
  'Every native object (bandpowers, fields, workspaces, covariance workspaces) that the Python layer '
  'obtains is owned by one Python object and released exactly once: when that object is deleted, or '
  'when it replaces the native object by another (reading a file, recomputing). No operation, in any '
  'order of reads, recomputations, updates and deletions, and also after an exception, uses a '
  'native object after its release, releases one twice or loses one.',
  ['inputs', 'histories', 'fault_sequences'], 'all sequences of operations of the interface, with failures of '
  'the native calls between them',
  'Tests delete objects after one use and check nothing: a double release or a lost object does not '
  'fail a test unless the allocator happens to notice.',
  ['pymaster/workspaces.py', 'pymaster/covariance.py', 'pymaster/bins.py', 'pymaster/field.py'],
  [('NmtWorkspace, NmtCovarianceWorkspace', 'pymaster/workspaces.py'), ('__del__', 'pymaster/bins.py')],
  'abstract interpretation of the Python layer with ownership and typestate of native handles', PYN)

P('C04', 'Native memory is accessed within its bounds and released once',
  'During the whole life of the native objects (bandpowers, fields, workspaces, covariance workspaces, '
  'masks, simulated maps: creation, use, update of beams, bandpowers or matrix, writing and reading '
  'files, release) native code never reads or writes outside the block of memory it was given or '
  'obtained, whatever the sizes, and every block it obtains is released exactly once, by the function that belongs to the '
  'one that obtained it: nothing leaks and nothing is released twice.',
  ['inputs', 'histories'], 'all sizes (map sizes, multipole ranges, bandpowers, templates, spins) for arrays of '
  'the sizes the Python layer guarantees',
  'An access one element outside a block, or a leaked block, changes no result in most runs: the allocator '
  'rounds sizes up and tests run with a few sizes and without memory checkers.',
  ['src/nmt_master.c', 'src/nmt_master_flat.c', 'src/nmt_covar.c', 'src/nmt_covar_flat.c', 'src/nmt_bins.c',
   'src/nmt_bins_flat.c', 'src/nmt_field_flat.c', 'src/flatsky_utils.c', 'src/nmt_mask.c', 'src/nmt_mask_flat.c',
   'src/nmt_io.c', 'pymaster/namaster_wrap.c'],
  [('nmt_workspace_free, nmt_field_flat_free and siblings', 'src/nmt_master.c'),
   ('nmt_compute_coupling_matrix', 'src/nmt_master.c')],
  'value-flow summaries with symbolic block sizes: linear bounds of every access over its loops, and '
  'life of every block from allocation to release',
  'Lives are those of spec/mem.c; normal returns only (failures are C02). Indices looked up in tables or computed from '
  'pixel positions are undecided, and so are the disc queries of the apodisation.')

P('C09', 'Native results never depend on memory that was not written',
  'Everything native code reads from a block it obtained, and every element of every array it hands '
  'back (binned and unbinned spectra, bandpower windows, coupling matrices, covariances, maps, masks, '
  'effective multipoles), was written before: no result contains or depends on whatever happened to '
  'be in memory, whatever the sizes, bandpowers and options.',
  ['inputs', 'histories'], 'all sizes, spins, templates, options and sequences of operations of the lives analysed',
  'Fresh memory is often zero in a test process, so an element that is never written shows only in '
  'a long-running process or with sizes and bandpowers a test does not use.',
  ['src/nmt_master.c', 'src/nmt_master_flat.c', 'src/nmt_covar.c', 'src/nmt_covar_flat.c', 'src/nmt_bins.c',
   'src/nmt_bins_flat.c', 'src/nmt_field_flat.c', 'src/flatsky_utils.c', 'src/nmt_mask.c', 'src/nmt_mask_flat.c',
   'pymaster/namaster_wrap.c'],
  [('native functions behind the Python interface', 'pymaster/namaster_wrap.c')],
  'value-flow summaries: coverage of every read of a block by the stores before it, for symbolic sizes',
  'Lives are those of spec/mem.c, where the caller reads every element of each result. Coverage that depends '
  'on values looked up in tables is undecided.')

P('C05', 'Inputs given by the caller are never modified',
  'No operation of the interface changes an array, list or dictionary the caller passed in (maps, '
  'masks, templates, spectra, beams, weights, positions, headers), whatever combination of '
  'arguments is used; the only exception is a function documented to do so.',
  ['inputs', 'configurations'], 'all functions and combinations of arguments',
  'Tests do not compare their inputs with a copy; an in-place operation shows only in a caller that '
  'uses its arrays again.',
  ['pymaster/field.py', 'pymaster/workspaces.py', 'pymaster/utils.py', 'pymaster/bins.py',
   'pymaster/covariance.py'],
  [('NmtField, NmtFieldFlat', 'pymaster/field.py')],
  'abstract interpretation of the Python layer with effects on buffers', PYN)

P('C06', 'Objects keep private copies of their inputs and hand out private results',
  'An object built from arrays gives the same answers after the caller changes those arrays, and '
  'an array returned by an accessor or function can be changed without changing the answers of the '
  'object or of later calls, except where sharing is documented.',
  ['inputs', 'histories'], 'all constructors, accessors and functions, all sequences of later calls',
  'Tests do not change their arrays after use.',
  ['pymaster/field.py', 'pymaster/workspaces.py', 'pymaster/utils.py', 'pymaster/bins.py',
   'pymaster/covariance.py'],
  [('NmtField, NmtFieldFlat, NmtBin', 'pymaster/field.py')],
  'abstract interpretation of the Python layer with aliasing of buffers', PYN)

P('C10', 'Parallel regions are free of data races and independent of the number of threads',
  'Inside every OpenMP region of the native library no memory shared between threads is stored to by '
  'two iterations or threads, or read while another iteration may store to it, without '
  'protection; every thread\'s part of a sum is added exactly once; scratch buffers and library '
  'objects with state are private to a thread. Results therefore do not depend on the number of threads or '
  'on how iterations are scheduled.',
  ['schedules', 'inputs'], 'all schedules, numbers of threads, sizes and branches of each region',
  'A race shows only in rare schedules; tests run one, on sizes at which most loops have '
  'little work.',
  ['src/nmt_master.c', 'src/nmt_master_flat.c', 'src/nmt_covar.c', 'src/nmt_covar_flat.c',
   'src/nmt_mask.c', 'src/nmt_mask_flat.c', 'src/nmt_field_flat.c', 'src/flatsky_utils.c',
   'src/healpix_extra.c'],
  [('OpenMP regions', 'src/nmt_master.c'), ('fs_alm2cl, fs_synalm', 'src/flatsky_utils.c')],
  'static race analysis of OpenMP regions: pointer facts, dependence of subscripts on the work-shared '
  'loop', 'Subscripts looked up in tables or computed by calls are undecided unless the element is '
  'updated in place. Distinct array arguments of a function are assumed not to overlap, band lists '
  'not to share multipoles. Floating-point rounding of the order of additions is outside the property.')

P('C17', 'Simulations depend on the seed alone and leave global generators alone',
  'A simulated map with a given seed is the same in every call, whatever was drawn before, however '
  'many threads are used and whatever else the program does; random streams of different rows or '
  'threads are distinct. No function of the interface changes the state of numpy\'s global random '
  'generator, beyond the one number drawn when a simulation is asked for without a seed.',
  ['inputs', 'histories', 'schedules'], 'all seeds, sizes, spectra, spins; all functions of the interface',
  'Tests call simulations once; a stream shared by threads or a generator left reseeded shows '
  'only in a second call or on another machine.',
  ['pymaster/utils.py', 'src/flatsky_utils.c', 'src/nmt_field_flat.c'],
  [('synfast_spherical, synfast_flat', 'pymaster/utils.py'), ('fs_synalm', 'src/flatsky_utils.c')],
  'abstract interpretation of the Python layer with effects on generators; dataflow of seeds in '
  'parallel loops; reachability of nondeterministic sources', PYN)
