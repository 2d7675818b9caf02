"""The properties (source of properties.jsonl, MANIFEST.json and checks/meta.json; see tools/gen.py)."""

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, text, why, files, mech, bounds, over=('inputs',), assume=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files),
                      mech=list(mech), bounds=bounds, assume=list(assume), observe=list(observe)))


# ---------------------------------------------------------------- data model
P('D01', 'Frames and cubes of a dataset are always one and the same',
  "A dataset's stacked data, error and data-quality cubes and its individual frames always describe the same pixels: after "
  'construction, copying, selection and every update, editing a frame edits the cube and the other way round. An update '
  'replaces exactly what it was given (shape-checked), adds its history entry to every frame and touches nothing else.',
  'all pixel contents, dataset sizes and sequences of updates, error additions, rescalings, copies and edits',
  'tests build one dataset and look at one update; the guarantee is about every content and every sequence of operations',
  ['corgidrp/data.py'], [('Dataset', 'corgidrp/data.py class Dataset'), ('Image', 'corgidrp/data.py class Image')],
  'Datasets of 1-3 frames of 2x2 pixels, 1-3 error layers, sequences of 2-3 operations; pixel values, flags and header values symbolic.',
  over=('inputs', 'histories'))
P('D02', 'A copy is independent of its original and loses nothing',
  'A copied image or dataset equals the original in data, errors, flags, headers, extra extensions and names, and a later '
  'change to either side is never visible in the other. A copy without data carries the same headers.',
  'all contents, flag words and header values, and every kind of later edit',
  'tests compare one copy and edit one pixel; independence concerns every component and both directions',
  ['corgidrp/data.py'], [('Image.copy, Dataset.copy', 'corgidrp/data.py')],
  'Images of 2x2 pixels with 1-2 error layers and an extra extension, datasets of 2 frames; contents symbolic, edit site chosen symbolically.')
P('D03', 'Splitting a dataset partitions it by keyword value',
  'Splitting a dataset by header keywords gives one sub-dataset per distinct combination of values, in which every frame '
  'appears exactly once, in its original order, with its own data, errors and flags. The reported values are those of the '
  'frames in the group, with their type; splitting on nothing is refused.',
  'all assignments of keyword values (numbers and text, primary and extension headers) to frames',
  'tests split one dataset with two fixed exposure times; grouping must hold for every equality pattern and mix of types',
  ['corgidrp/data.py'], [('Dataset.split_dataset', 'corgidrp/data.py')],
  '2-3 frames, 1-3 keywords, numeric keyword values symbolic, text values from a two-element set, pixels symbolic.')
P('D04', 'Error terms add in quadrature and rescaling scales every layer',
  'Adding an error term makes the combined variance the sum of the variances, keeps a separate named layer exactly when '
  'individual errors are tracked, and leaves earlier layers alone; rescaling multiplies every layer. Terms of the wrong shape '
  'are refused without any change.',
  'all error maps and terms, per-dataset and per-frame terms in any order, tracking on and off',
  'tests add two constant maps to one dataset; the algebra must hold for all values, orders and layer counts',
  ['corgidrp/data.py'], [('add_error_term, rescale_error', 'corgidrp/data.py Image and Dataset')],
  '1-3 frames of 2x2 or 2x2x2 pixels, 1-3 initial layers, 2-3 added terms; all values symbolic.', over=('inputs', 'configurations', 'histories'))

# ---------------------------------------------------------------- L1 -> L2a
P('L01', 'Prescan bias: each row loses its own median, error included',
  'Prescan subtraction returns exactly the science (or requested) part of the detector with, from every row, the median of the '
  "reliable prescan columns of that same detector row minus the calibrated bias offset subtracted; the median's standard error "
  'and the offset error enter the error map, and flags and pixels keep their places. Inputs without usable geometry are refused.',
  'all pixel values and all detector geometries with prescan, image and overscan sections',
  'tests use the one real detector geometry with constant or Gaussian prescans; alignment of rows and medians must hold for all',
  ['corgidrp/l1_to_l2a.py', 'corgidrp/detector.py'], [('prescan_biassub', 'corgidrp/l1_to_l2a.py'), ('slice_section, imaging_slice', 'corgidrp/detector.py')],
  'Detectors of 4-5 rows and 7-10 columns with 2-5 reliable prescan columns, 1-3 frames, full frame, image and imaging area; pixels and offsets symbolic.',
  over=('inputs', 'configurations'))
P('L02', 'Saturated pixels and cosmic-ray plateaus are all flagged, nothing else is',
  'A pixel gets the saturation flag exactly when it reaches the chosen fraction of the smaller full-well limit for the gain '
  'that applies to its frame. Every cosmic plateau of at least the minimum length is flagged from its head through its tail, '
  'with the box around its head; rows without a saturated plateau nearby get no cosmic flag, and flags already set are kept.',
  'all images, gains, thresholds, minimum lengths, boxes and tails',
  'tests look at hand-made images with one hit; edge positions, short rows, merged plateaus and gain selection need all inputs',
  ['corgidrp/l1_to_l2a.py', 'corgidrp/detector.py'], [('detect_cosmic_rays', 'corgidrp/l1_to_l2a.py'), ('flag_cosmics, find_plateaus, calc_sat_fwc', 'corgidrp/detector.py')],
  'Images up to 3x3 or 1x6 pixels, minimum lengths 1-3, boxes 0-2, tails 0-2; pixel values, gains and previous flags symbolic.',
  assume=['scipy.ndimage.median_filter is represented by its definition (rank selection in a sliding window)'])
P('L03', 'Nonlinearity correction multiplies by the tabulated relative gain',
  'Every pixel is multiplied by the relative gain interpolated from the calibration table at its count and at the EM gain of its '
  'own frame (measured, else applied if positive, else commanded), never extrapolated; pixels above the threshold, and only '
  'they, get the nonlinearity flag. Tables that are not monotonic or never reach unity are refused.',
  'all pixel values, gains, valid tables and thresholds',
  'tests use one table and one gain; gain selection, clamping and the threshold edge must hold for all',
  ['corgidrp/l1_to_l2a.py', 'corgidrp/detector.py'], [('correct_nonlinearity', 'corgidrp/l1_to_l2a.py'), ('get_relgains', 'corgidrp/detector.py')],
  'Tables of 2-3 gains and 2-4 counts; in turn pixel values, gains or table entries symbolic, the others from representative sets on both sides of every node.',
  assume=['RectBivariateSpline(kx=ky=1) and interp1d(linear) are represented by (bi)linear interpolation with held edges'])

# ---------------------------------------------------------------- L2a -> L2b
P('M01', 'Dark subtraction: the right dark, per pixel, with its error and flags',
  'Dark subtraction removes from every frame exactly the master dark, or the dark synthesised from noise maps as FPN/gain + dark '
  'current times exposure time + CIC for the gain and exposure time that apply. The dark error adds in quadrature and its flags '
  'are kept. A synthesised dark is saved where asked. Darks of another exposure time or gain, mixed datasets and photon-counted darks are refused; inputs stay unchanged.',
  'all pixel values, dark frames, noise maps, exposure times, gains and flag words',
  'tests subtract one constant dark; unit factors, quadrature, gain choice and refusals must hold for all values',
  ['corgidrp/l2a_to_l2b.py', 'corgidrp/darks.py'], [('dark_subtraction', 'corgidrp/l2a_to_l2b.py'), ('build_synthesized_dark', 'corgidrp/darks.py')],
  'Frames of 2x2 (master dark) or 3x4 detector pixels (synthesised), 1-2 frames (thorough 3); contents, exposure time, gains symbolic for master darks; representative gain and exposure time for synthesised ones.',
  over=('inputs', 'configurations'))
P('M02', 'Flat division divides, propagates the flat error and flags zero flats',
  'Each pixel is divided by the flat, the relative errors of data and flat add in quadrature, and exactly the pixels whose flat '
  'is zero get the bad-flat flag; frames keep all other flags and the flat stays unchanged.',
  'all pixel values, flats, errors and flag words',
  'tests divide by a near-unity flat; zero flats, error algebra and flag preservation must hold for every input',
  ['corgidrp/l2a_to_l2b.py'], [('flat_division', 'corgidrp/l2a_to_l2b.py')],
  'Frames of 1x2 pixels, 1-2 frames (thorough 2x3, 3 frames, 3 error layers); data, flat, errors and flags symbolic.')
P('M03', 'Conversion to electrons scales data and all errors by the k gain',
  'Data and every individual error layer are multiplied by the k gain; the error of the k gain enters the combined error in '
  'quadrature; unit, gain and read noise are recorded in every frame and flags are kept.',
  'all pixel values, errors, k gains and read noises',
  'tests use one gain on one dataset; the propagation must hold for all values and layer counts',
  ['corgidrp/l2a_to_l2b.py'], [('convert_to_electrons', 'corgidrp/l2a_to_l2b.py')],
  '1-2 frames of 1x2 pixels with 1-2 error layers (thorough 3); everything symbolic.')
P('M04', 'EM-gain division uses the gain that applies to each frame',
  "Each frame's data and error layers are divided by that frame's own EM gain: the measured one if present, else the applied one "
  'if positive, else the commanded one. Flags are kept and the input is untouched.',
  'all gains per frame, header combinations and pixel values',
  'tests use one common commanded gain; precedence and per-frame choice need all combinations',
  ['corgidrp/l2a_to_l2b.py'], [('em_gain_division', 'corgidrp/l2a_to_l2b.py')],
  '1-2 frames of 1x2 pixels (thorough 3 frames, 3 layers); pixels and all gains symbolic, presence of the measured gain chosen per frame.',
  over=('inputs', 'configurations'))
P('M05', 'Bad pixels become NaN and keep their flags; good pixels are untouched',
  'A pixel flagged in its frame or in the bad-pixel map becomes NaN and carries both flag words plus the replacement flag; every '
  'other pixel keeps its value and stays unflagged. Errors, the map and the input are untouched.',
  'all flag words, maps and pixel values',
  'tests flag a few pixels with one value; every bit of the flag word and every combination matters',
  ['corgidrp/l2a_to_l2b.py'], [('correct_bad_pixels', 'corgidrp/l2a_to_l2b.py')],
  '1-2 frames of 1x2 pixels (thorough 3 frames of 2x2), map as uint16, uint8 or float; all contents symbolic.')
P('M06', 'Desmearing exactly inverts readout smear',
  "Smearing the desmeared frame with the row read time and the frame's own exposure time gives the input frame back, column by "
  'column; errors and flags are untouched.',
  'all pixel values, exposure times per frame and image heights',
  'tests undo a simulated smear of one scene; inversion must hold for all scenes and per-frame exposure times',
  ['corgidrp/l2a_to_l2b.py'], [('desmear', 'corgidrp/l2a_to_l2b.py')],
  'Frames of 2-3 rows (thorough 5) and 2 columns, 1-2 frames; pixels symbolic, read and exposure times from representative sets.')
P('M07', 'Frame selection drops exactly the frames that fail a criterion',
  'Exactly the frames that exceed a requested bad-pixel fraction (not counting allowed flags), exposure flag or pointing '
  'criterion are dropped, or marked bad when frames are to be kept; the other frames keep order and content and record the criteria '
  'and the rejected ones in their headers. When no frame is left the step refuses.',
  'all flag words, thresholds, allowed-flag masks, pointing values and combinations of criteria',
  'tests set one criterion with hand-picked frames; thresholds and combinations need all values',
  ['corgidrp/l2a_to_l2b.py'], [('frame_select', 'corgidrp/l2a_to_l2b.py')],
  '2-3 frames of 1x3 pixels; flag words, thresholds and pointing values symbolic, bad-pixel fraction and allowed flags from representative sets.',
  over=('inputs', 'configurations'))
P('M08', 'Photon noise adds the signal to the variance, doubled with EM gain',
  'The variance of each pixel grows by its signal in photo-electrons, doubled when the EM gain that applies exceeds one; pixels '
  'without positive signal gain no noise, the error map stays finite, and data and flags are untouched.',
  'all pixel values, errors, and gain header combinations',
  'tests use one gain and positive signals; gain choice and non-positive pixels need all inputs',
  ['corgidrp/l2a_to_l2b.py'], [('add_photon_noise', 'corgidrp/l2a_to_l2b.py')],
  '1-2 frames of 1x2 pixels (thorough 2x2, 3 frames); everything symbolic.', over=('inputs', 'configurations'))
P('L04', 'A frame is promoted one data level at a time, without touching its content',
  'Each promotion step (L1 to L2a, L2b, L3, L4, TDA) accepts exactly the frames of the level before it, updates level and file '
  'name of every frame, records it once in the history and changes nothing else; a dataset with any frame of another level is '
  'refused and left as it was.',
  'all level combinations of the frames of a dataset, contents and file names',
  'tests promote one consistent dataset per level; mixed datasets and content preservation need every combination',
  ['corgidrp/l1_to_l2a.py', 'corgidrp/l2a_to_l2b.py', 'corgidrp/l2b_to_l3.py', 'corgidrp/l3_to_l4.py', 'corgidrp/l4_to_tda.py'],
  [('update_to_l2a', 'corgidrp/l1_to_l2a.py'), ('update_to_l2b', 'corgidrp/l2a_to_l2b.py'), ('update_to_l3', 'corgidrp/l2b_to_l3.py'),
   ('update_to_l4', 'corgidrp/l3_to_l4.py'), ('update_to_tda', 'corgidrp/l4_to_tda.py')],
  'Datasets of 2 frames (thorough 3) of 2x2 pixels; level of each frame chosen symbolically, contents symbolic; chain of all five steps.',
  over=('inputs', 'histories'))
P('L05', 'Detector regions tile the detector; slicing and embedding are inverse',
  'For every readout type the image, prescan and overscan regions lie in the detector without overlap, the reliable prescan is '
  'exactly its named columns, and the imaging area contains the image and no other region. A slice is exactly the named '
  'pixels, embedding puts them back with the pad value elsewhere, and sections that do not fit are refused.',
  'all detector pixels of the real geometry tables, all frame contents and small geometries',
  'tests slice one frame of one readout type; the tiling concerns every pixel of every table',
  ['corgidrp/detector.py'], [('detector_areas, slice_section, embed, unpack_geom, imaging_area_geom, imaging_slice', 'corgidrp/detector.py')],
  'Real tables with symbolic pixel position; slicing and embedding on small detectors of 4-6 rows and 7-9 columns with symbolic pixels.',
  over=('inputs', 'configurations'))
P('U01', 'Flag words survive packing and the exchange with NaN',
  'Unpacking gives the 64 bits of a flag word and packing restores it. Turning flags into NaN blanks exactly the pixels (data '
  'and error) whose flag reaches the threshold; turning NaN into flags adds the flag to exactly the NaN pixels and drops none; '
  'the masked view of an image masks exactly its flagged pixels; the flag dictionaries agree with each other.',
  'all flag words, pixel values and thresholds',
  'tests use a few single-bit flags; combined flags and every bit position matter',
  ['corgidrp/data.py', 'corgidrp/detector.py'], [('unpackbits_64uint, packbits_64uint, get_*_map, Image.get_masked_data', 'corgidrp/data.py'), ('nan_flags, flag_nans', 'corgidrp/detector.py')],
  '1-2 words or frames of 1x2 pixels (thorough 3 frames of 2x2); words symbolic over their full width (int64: 15 bits).')
P('N01', 'Exposure-time division uses the time of each frame and keeps all layers',
  'Data and every error layer of each frame are divided by its own exposure time, unit and history say so, flags are kept and '
  'the input is untouched.', 'all pixel values, errors and per-frame exposure times',
  'tests use one exposure time for all frames', ['corgidrp/l2b_to_l3.py'], [('divide_by_exptime', 'corgidrp/l2b_to_l3.py')],
  '1-2 frames of 1x2 pixels with 1-2 error layers (thorough 3 frames, 3 layers); everything symbolic.')
P('N02', 'Cropping keeps every frame, its star and its coordinates aligned',
  'Each frame is cut to the requested size around the requested centre or its own star location, to the nearest pixel corner; '
  'data, errors and flags are the pixels of that window, and star location, reference pixel and detector offset move with it. '
  'Odd sizes, missing centres and windows that leave the frame are refused.',
  'all centre positions, frame contents and header combinations',
  'tests crop around one centre; alignment must hold for every sub-pixel position and per-frame centre',
  ['corgidrp/l3_to_l4.py'], [('crop', 'corgidrp/l3_to_l4.py')],
  'Frames of 3x4 pixels (thorough 5x6), 1-2 frames, windows of 2x2 (thorough 4x2); centres and contents symbolic.', over=('inputs', 'configurations'))
P('N03', 'Combining subexposures averages only good pixels and propagates errors',
  'Each group of consecutive frames becomes one frame holding the mean (or median) of the unflagged values, scaled to the number '
  'of frames on request, with the propagated error. A pixel keeps its combined flags only when no frame had a good value. '
  'Group order, headers and parents are kept; sizes that do not divide the dataset and unknown methods are refused.',
  'all contents and flags of all group sizes',
  'tests combine frames with one flagged pixel; every flag pattern per pixel is a different case',
  ['corgidrp/combine.py'], [('combine_images, combine_subexposures', 'corgidrp/combine.py')],
  'Groups of 2-3 frames, 1-2 groups (thorough up to 6 frames), 1-2 pixels; pixels, errors and flag words symbolic.')
P('N04', 'World coordinates point where each frame points',
  'Each frame gets a tangent-plane solution at its own pointing corrected by the calibrated offset, with the calibrated plate '
  'scales turned by north angle plus its own roll and east to the left; content and primary header are kept.',
  'all pointings, rolls, north angles, plate scales and offsets',
  'tests check one orientation; sign and per-frame errors show only for other angles',
  ['corgidrp/l2b_to_l3.py'], [('create_wcs', 'corgidrp/l2b_to_l3.py')],
  '1-2 frames (thorough 3) of 2x3 to 4x5 pixels; pointing, roll, north angle, scale and offset symbolic (sine and cosine uninterpreted).')
P('N05', 'Flux conversion multiplies by the flux factor and propagates its error',
  'Data and all error layers are multiplied by the flux factor over the colour correction; the error of the factor enters in '
  'quadrature; flags are kept, unit and factor recorded, input untouched.',
  'all pixel values, errors and factors', 'tests use one factor; propagation must hold for all values and layers',
  ['corgidrp/l4_to_tda.py'], [('convert_to_flux', 'corgidrp/l4_to_tda.py')],
  '1-2 frames of 1x2 pixels with 1-2 error layers (thorough 3 frames, 3 layers); colour correction from a representative set, the rest symbolic.')
P('D07', 'Saving and loading a frame loses nothing',
  'A saved frame reads back as the same frame - data, every error layer, flags, headers, history and extra extensions - and '
  'saving changes nothing in memory but the name. Datasets save each frame under its own or given name and read back in order.',
  'all contents, layer counts, extra extensions and ways of naming the file',
  'tests round-trip one frame; header and extension combinations are many',
  ['corgidrp/data.py'], [('Image.save, Image.__init__, Dataset.save', 'corgidrp/data.py')],
  'Frames of 2x2 to 2x2x2 pixels, 1-3 error layers, 0-2 extra extensions, datasets of 2-3 frames; contents symbolic, held by an in-memory FITS store (real files on replay).',
  over=('inputs', 'configurations'), assume=('astropy writes and reads back arrays and headers exactly (its store is modelled in memory)',))
P('D09', 'Calibration products are what they say and survive storage',
  'A new calibration product has its own type and level CAL, lists its input files and leaves them alone; it reads back with the '
  'same values through its class or autoload. Files of another or no type, content of the wrong shape and products without '
  'inputs are refused; default parameters are never shared between objects.',
  'all product classes, contents and wrong types',
  'tests load a few products; refusal and identity concern every pair of class and file type',
  ['corgidrp/data.py'], [('Calibration product classes, autoload', 'corgidrp/data.py')],
  'Every calibration class with small symbolic content, every class against every kind of wrong type label.', over=('inputs', 'configurations'),
  assume=('astropy writes and reads back arrays and headers exactly (its store is modelled in memory)',))

# ---------------------------------------------------------------- calibration products
P('C01', 'Master darks average only good pixels and keep honest errors and flags',
  'Averaging frames ignores flagged values, counts the good ones per pixel and combines errors in quadrature; a pixel is flagged '
  'only when no frame was good. A traditional master dark does this for its frames, with telemetry rows zeroed, is labelled with '
  'its inputs and leaves them alone; mixed or photon-counted frames are refused.',
  'all contents, errors and flag patterns of the frames',
  'tests build one dark from simulated frames; every flag pattern per pixel is a different case',
  ['corgidrp/darks.py'], [('mean_combine, build_trad_dark', 'corgidrp/darks.py')],
  '2-4 frames of 1-2 pixels for the average, 2-3 frames of 2x2 to 3x3 pixels on a small detector for the dark; pixels, errors and flags symbolic.',
  over=('inputs', 'configurations'))
P('C03', 'Noise maps are the least-squares fit of the stacked darks',
  'Fitting stacks of darks over gain and exposure time gives, per pixel, the offset, clock-induced charge and dark current that '
  'minimise the squared residuals, with dark current and charge cut at zero, errors from the scatter about the fit, pixels with too '
  'little data flagged, and labels and inputs recorded. Too few stacks or frames are refused; inputs are untouched.',
  'all stack contents and flag patterns',
  'tests compare one simulated fit with a tolerance; the normal equations must hold for every pixel content',
  ['corgidrp/darks.py'], [('calibrate_darks_lsq', 'corgidrp/darks.py')],
  '4-5 stacks of 2 frames on a small detector; one pixel at a time symbolic, gains and exposure times from fixed sets.',
  over=('inputs', 'configurations'), assume=('the correlation used for the read noise is not modelled (read noise is not claimed)',))
P('C05', 'Photon counting estimates the mean of the unflagged frames, bin by bin',
  'A value counts as a photon exactly above the threshold. Each bin of consecutive frames yields the photometrically corrected mean '
  'of its unflagged values, never negative, flagged exactly where no frame is usable; the matching dark slice is subtracted with its '
  'error and flags. Darks give a labelled master dark. Unsuitable input is refused; inputs are untouched.',
  'all frame contents, flags, thresholds, bin sizes and darks',
  'tests use one simulated stack; bin boundaries, flag patterns and refusals are many',
  ['corgidrp/photon_counting.py'], [('get_pc_mean, photon_count, corr_photon_count, calc_lam_approx, lam_newton_fit, varL23', 'corgidrp/photon_counting.py')],
  '1-3 frames (thorough 5) of 1-2 pixels, bins of 1-3 frames, dark cubes of 1-2 slices, three (threshold, gain) pairs, one mask of 2x2 pixels; contents, flags, estimates '
  'and dark errors symbolic.',
  over=('inputs', 'configurations'), assume=('the photometric correction is an unknown function of the counts where frames are combined (decided separately)',))
P('C06', 'Bad-pixel maps flag exactly the deviating pixels',
  'A pixel is hot exactly when it exceeds the mean of the dark by more than the threshold times the standard deviation, and dead '
  'exactly when it is below the fraction of the local mean of the flat, edges included. The map holds 8, 4, 12 or 0 accordingly, '
  'records its inputs and leaves them alone.',
  'all dark and flat contents', 'tests plant a few bad pixels in a flat background',
  ['corgidrp/bad_pixel_calibration.py'], [('create_bad_pixel_map, detect_hot_warm_pixels_from_dark, detect_dead_pixels_from_flat', 'corgidrp/bad_pixel_calibration.py')],
  'Frames of 2x2 to 1x4 pixels (thorough 3x3), boxes of 2-5 pixels; contents symbolic (two symbolic pixels for the hot test).')

# ---------------------------------------------------------------- running the pipeline
P('W01', 'The default recipe is the one documented for the data',
  'The recipe chosen for a dataset depends only on data level, kind of visit, photon counting, star tracking and, for darks, '
  'whether all frames share exposure time and gains. Other levels are refused. Every template exists and names only known steps '
  'and calibration types.',
  'all combinations of level, visit type, modes and frame settings',
  'tests ask for a few recipes; the decision table has many rows and compares settings of all frames',
  ['corgidrp/walker.py', 'corgidrp/recipe_templates'], [('guess_template, all_steps', 'corgidrp/walker.py'), ('templates', 'corgidrp/recipe_templates')],
  '1-2 frames (thorough 3), eleven visit types, four levels; exposure times and gains symbolic.', over=('inputs', 'configurations'))
P('W02', 'The calibration database returns the best matching calibration',
  'For a frame the database returns, of the products of the requested type, the one closest in time - for darks only those with '
  'exactly the exposure time of the frame - and without a frame the one created last. Types that are no calibrations and types '
  'without a match are refused; the frame is unchanged.',
  'all dates, exposure times and contents of the database',
  'tests store one or two entries; selection concerns every order of dates and every equality of exposure times',
  ['corgidrp/caldb.py'], [('CalDB.get_calib', 'corgidrp/caldb.py')],
  '2-3 candidates (thorough 4) of every type plus one of another type; dates symbolic (eighths of a day in 100 days), exposure times symbolic.',
  over=('inputs', 'histories'), assume=('pandas tables and astropy dates are modelled (in-memory table with the real number parsing)',))
P('W03', 'The calibration database file always lists exactly the current entries',
  'After any sequence of entries, updates and removals through any number of connections the database file holds exactly one row '
  'per registered calibration with its current values; removing an unknown file is refused without change; changes not meant for '
  'disk stay in memory; scanning a folder enters exactly its calibration files.',
  'all histories of operations on two connections',
  'tests add and remove one entry; interleavings of connections are many',
  ['corgidrp/caldb.py'], [('CalDB.create_entry, remove_entry, scan_dir_for_new_entries', 'corgidrp/caldb.py')],
  'Sequences of 2 operations (thorough 3), after an empty or filled start, two files, two connections; dates and times symbolic.',
  over=('histories',), assume=('pandas tables and astropy dates are modelled (in-memory table with the real number parsing)',))
P('W04', 'Recipes run every step once, in order, with the right calibrations',
  'The steps of a recipe run once each in order, each on the result of the one before, with its keywords and calibrations; skipped '
  'steps do not run; saving stores the data of that moment with the recipe used. Automatic calibrations are the best match; a missing '
  'one is left out if optional, else refused or, if configured, only its step is skipped. Templates stay unchanged.',
  'all recipes, configurations and database contents',
  'tests run a few recipes; skipping, optional and just-in-time calibrations combine in many ways',
  ['corgidrp/walker.py'], [('run_recipe, autogen_recipe, walk_corgidrp', 'corgidrp/walker.py')],
  'Recipes of 2-3 steps (thorough 4) with recording step functions, 1-2 input files, two candidate calibrations; data and dates symbolic.',
  over=('inputs', 'configurations', 'histories'), assume=('pandas tables and astropy dates are modelled (in-memory table with the real number parsing)',))
P('W05', 'Results are stored under their names and calibrations are registered',
  'Saving a dataset or a single image writes every frame, unchanged, under its own name with the suffix inserted before the '
  'extension; calibration products are registered so that they are found at once with their stored file; science frames are not.',
  'all names, suffixes, product types and contents',
  'tests save a few names; suffix handling and registration concern every product type',
  ['corgidrp/walker.py'], [('save_data', 'corgidrp/walker.py')],
  '1-3 frames of one pixel, three kinds of names, four suffixes, all calibration types; contents symbolic.', over=('inputs', 'configurations'),
  assume=('pandas tables, astropy dates and FITS files are modelled in memory (real files on replay)',))
P('S01', 'Pupil-imaging frames are sorted into the right calibration sets',
  'From a mixed pupil-imaging data set exactly the frames of the mean set and of the requested calibration series (the longest k-gain '
  'series; for non-linearity also one series per gain) are returned, labelled with their use and otherwise unchanged, whatever '
  'the order of the file list. Unknown calibration types are refused.',
  'all exposure times and gains of a plan, all listing orders',
  'tests sort one simulated plan with fixed exposure times in one order',
  ['corgidrp/sorting.py'], [('sort_pupilimg_frames', 'corgidrp/sorting.py')],
  'Plans of 11-21 frames: a mean set that is the largest exposure-time group, one k-gain series, up to two non-linearity series; four '
  'listing orders; exposure times and gains symbolic; frames of another programme or a second, shorter series before or after.', over=('inputs', 'configurations'))
P('D08', 'Products name every file they were made from, once, and keep that list',
  'The input list of a combined frame, master dark, noise map or any other calibration product made from a data set holds the name of every frame it was '
  'made from and every name in the input lists of these frames, each exactly once, through any number of stages; the list '
  'survives storage, and making a product from a header that already has a list keeps it.',
  'all numbers of frames, presence or absence of earlier lists, and overlaps between them',
  'tests look at one list of one product; overlaps and several stages need particular input lists',
  ['corgidrp/data.py'], [('Image._record_parent_filenames and the product constructors', 'corgidrp/data.py')],
  'Up to 2 frames (thorough 3) with own lists of 0-2 (thorough 12) names overlapping arbitrarily, all ten product types, 2 stages.',
  over=('inputs', 'histories'), assume=('FITS files are modelled in memory (real files on replay)',))
P('C10', 'Core throughput measured for a PSF is what a position at that PSF gets',
  'Each off-axis PSF gets the flux above half its peak over the mean pupil flux, with its own window, flags and position; these '
  'survive storage. The mask centre follows the mask wheels through their matrices. Interpolated throughputs, nearest PSFs, radial '
  'profiles and maps give every position asked for its own value; positions outside the measured radii are left out.',
  'all throughputs, PSFs, mask movements, orders of frames and of positions',
  'tests compare one simulated field with itself; assignment of values to positions concerns every order and every coincidence',
  ['corgidrp/corethroughput.py', 'corgidrp/data.py'],
  [('estimate_psf_pix_and_ct, generate_psf_cube, generate_ct_cal, get_1d_ct, CreateCTMap', 'corgidrp/corethroughput.py'),
   ('CoreThroughputCalibration.GetCTFPMPosition, InterpolateCT, GetPSF', 'corgidrp/data.py')],
  'PSFs of 2-3 pixels (calibration: 6x7 with two symbolic pixels each), up to 3 frames; measurements on three axis-aligned or turned '
  'grids, 2 targets (thorough 3) out of 6-10 places; throughputs, PSFs, wheel positions and matrices symbolic.', over=('inputs', 'configurations'),
  assume=('scipy LinearNDInterpolator is used with its own weights for the concrete positions', 'PSF windows inside the frame'))
P('C11', 'Astrometric calibration averages correct per-frame measurements',
  'Centroids are flux-weighted mean positions of the image or the box asked for; angles run from north counterclockwise; sources are '
  'found brightest first at their own place and matched to the catalogue stars there; plate scale, any north angle and boresight are '
  'means over the sources used; the product holds the means over all (combined) frames, and leaves its input intact.',
  'all images, positions, brightness orders and per-frame measurements',
  'tests use one simulated star field; quadrants, edges, non-square images and frame counts are many',
  ['corgidrp/astrom.py'],
  [('centroid, centroid_with_roi, angle_between, seppa2dxdy, seppa2xy, get_polar_dist', 'corgidrp/astrom.py'),
   ('find_source_locations, match_sources, compute_platescale_and_northangle, compute_boresight, boresight_calibration, '
    'format_distortion_inputs, mean_angle', 'corgidrp/astrom.py')],
  'Images of 3-9 pixels for centroids, 6x7 with 3 sources for source finding, 2-4 frames (thorough 5); fluxes, brightnesses, positions and '
  'measurements symbolic; sky fields concrete. Of the distortion fit its residuals are covered, not the minimisation; the offset fit is not covered.',
  over=('inputs', 'configurations'), assume=('pyklip gaussfit2d, the offset fit and (for the product) source finding and matching are replaced by recorded values',
                                             'sine, cosine and arctangent are uninterpreted functions with sign, range and monotonicity facts'))

P('N06', 'KLIP throughput is recovered over injected flux, per separation and mode',
  'PSFs are injected at their separation and position angle from the star, rolled with the frame, as the closest measured PSF scaled '
  'to the noise of that separation times the wanted significance, into every frame and away from known sources. Noise is the '
  'standard deviation of the annulus. Throughput and width of each KL mode and separation are medians over position angles.',
  'all measured fluxes and noises, star positions, rolls, separations in any order, KL modes',
  'tests run one reduction with ordered separations and check one number; the bookkeeping must hold for all orders and values',
  ['corgidrp/klip_fm.py'], [('get_closest_psf, inject_psf, measure_noise, meas_klip_thrupt', 'corgidrp/klip_fm.py')],
  '1-2 frames, 1-2 KL modes (thorough 3), 2 separations, 1-2 position angles (thorough 3); noise, fluxes, PSFs, positions symbolic.',
  over=('inputs', 'configurations'), assume=('pyklip injection, reduction and Gaussian fits are replaced by recorded values',))
P('N07', 'Flux ratio noise uses the star, throughputs and separations of each frame',
  'The flux ratio noise curve of every frame holds, per KL mode and separation, the flux of a Gaussian with the annular noise as peak '
  "and that frame's KLIP width, over the flux of its own unocculted star through the filter, over KLIP and core throughput at that "
  'separation. Separations and annulus width not given are those of the frame. Inputs stay; every frame needs its star.',
  'all noise values, throughputs, widths, star fluxes and transmissions; any number of frames with different separations',
  'tests use one frame with its star on the diagonal; mixing up frames, modes, separations or axes shows only with several',
  ['corgidrp/l4_to_tda.py'], [('compute_flux_ratio_noise', 'corgidrp/l4_to_tda.py')],
  '1-2 frames (thorough 3), 2-3 KL modes, 3 separations; noise, throughputs, widths, fluxes and transmissions symbolic, separations and star places concrete.',
  over=('inputs', 'configurations'),
  assume=('the Gaussian fit of the star and the annular noise (N06) are replaced by recorded values; linear interpolation stands for interp1d',))

P('C09', 'Flux calibration is known band flux over measured counts',
  'Band fluxes, irradiances, pivot and effective wavelengths and colour corrections follow the photometric conventions for every '
  'filter curve and spectrum. Aperture flux sums unflagged, background-subtracted pixels by overlap, error in quadrature. The '
  "calibration factor is the star's band flux over its counts with their relative error, names its inputs and leaves them alone.",
  'all spectra, filter curves, pixel values, errors, backgrounds and photometry settings',
  'tests measure one bright Gaussian star with generous tolerances; errors, flags and conventions show only for general values',
  ['corgidrp/fluxcal.py'],
  [('calculate_band_flux .. compute_color_cor, read_cal_spec, get_filter_name', 'corgidrp/fluxcal.py'),
   ('aper_phot, phot_by_gauss2d_fit, calibrate_fluxcal_aper, calibrate_fluxcal_gauss2d', 'corgidrp/fluxcal.py')],
  'Spectra of 3 wavelengths (6 for reading), images of 3x4 to 5x5 pixels with 3 symbolic pixels, 1-2 frames (thorough 3); spectra, '
  'filter curves, pixels, errors, counts and backgrounds symbolic; positions and wavelengths concrete.', over=('inputs', 'configurations'),
  assume=('photutils aperture weights and Simpson weights are those of the libraries at the concrete positions', 'background, centroid and Gaussian fit are replaced by recorded values'))
P('N08', 'Magnitudes and fluxes follow from counts, calibration and Vega',
  "Apparent magnitudes are -2.5 log10 of the star's over Vega's band value, colour corrections compare source and reference at the "
  'pivot wavelength, fluxes are mean counts times calibration factor over colour correction with errors in quadrature, zero points '
  'add 2.5 log10 of the counts. Results go into the headers of a copy; mixed filters or targets are refused.',
  'all spectra, filter curves, counts, errors and calibration factors',
  'tests compare single values of one star; every frame, error term and sign matters for all inputs',
  ['corgidrp/l4_to_tda.py', 'corgidrp/fluxcal.py'],
  [('determine_app_mag, determine_color_cor, determine_flux, calculate_zero_point', 'corgidrp/l4_to_tda.py'), ('calculate_vega_mag', 'corgidrp/fluxcal.py')],
  '1-2 frames (thorough 3), spectra of 3 wavelengths; spectra, curves, counts, errors and factors symbolic.', over=('inputs', 'configurations'),
  assume=('photometry is C09; the logarithm is an uninterpreted function of its argument', 'Simpson weights of the concrete wavelengths'))

P('C14', 'Companions are detected once and measured against their own host PSF',
  'Source detection lists every place above the threshold once, strongest first, always ends and leaves the image. Found sources are '
  'removed wherever they are. Each companion gets its flux over what the host would show at its place, corrected for the KLIP '
  'throughput of its separation and mode, and the magnitude that follows; cropping keeps its place relative to the star.',
  'all signal-to-noise values, peaks, counts, throughputs and positions of several companions',
  'tests inject random sources and measure with wide tolerances; order, borders, ties and mixing of companions are not seen',
  ['corgidrp/l4_to_tda.py', 'corgidrp/find_source.py', 'corgidrp/measure_companions.py'],
  [('find_source', 'corgidrp/l4_to_tda.py'), ('psf_scalesub', 'corgidrp/find_source.py'),
   ('measure_companions, parse_companions, update_companion_location_in_cropped_image, extract_single_frame', 'corgidrp/measure_companions.py')],
  'Images of 11x12 pixels with 3 (thorough 4) symbolic sources, 1-2 companions (thorough 3), 2 KL modes; signal-to-noise, peaks, counts, '
  'throughputs symbolic; places concrete. The S/N map itself (pyklip) is not covered.', over=('inputs', 'configurations'),
  assume=('the S/N map is the image left over; Gaussian fits, photometry (C09), host magnitude (N08), nearest PSF (C10) are recorded values',))

P('C12', 'Neutral density is -log10 of measured over expected counts at its place',
  'Every sweet-spot entry is minus log10 of the counts of a bright frame over those expected from its spectrum, the filter and the '
  'calibration factor of its filter (given, or averaged over dim stars), with the place of its star; all frames appear in order. '
  'A large scatter of any target is flagged, the product remembers its inputs and filter, and the inputs stay as they are.',
  'all counts, spectra, calibration factors, places and groupings of dim and bright frames',
  'tests make one raster of one star with one constant density; mixing frames, targets or filters and the flag are not seen',
  ['corgidrp/nd_filter_calibration.py'], [('create_nd_filter_cal and its helpers', 'corgidrp/nd_filter_calibration.py'),
   ('NDFilterSweetSpotDataset', 'corgidrp/data.py')],
  '2-4 frames, 1-2 targets, 1-2 filters; counts, factors and spectra symbolic; star places concrete.', over=('inputs', 'configurations'),
  assume=('photometry and flux calibration are C09 and centroids C11, replaced by recorded values', 'the logarithm is an uninterpreted function; griddata is linear'))

P('N09', 'North up and distortion correction move everything to its true place',
  'North up turns the data, all error layers and the flags of every frame by its own north angle about the same point, so that north '
  'is along +y and east to the left; sky positions and the star recorded in the header stay on their features. Distortion correction '
  'resamples by the calibrated displacement on images of any shape; invalid pixels spoil only their neighbourhood. Inputs stay.',
  'all pixel values, errors and flags; rolls, rotation centres and image shapes',
  'tests look at one bright block in one square image; offsets of a pixel, other layers and shapes are within their tolerance',
  ['corgidrp/l3_to_l4.py'], [('northup, distortion_correction', 'corgidrp/l3_to_l4.py')],
  'Images of 4x4 to 6x7 pixels with 3 symbolic pixels, symbolic flags, 1-2 frames, 1-2 error layers; angles, centres and displacements '
  'concrete. Errors and flags are not moved by the distortion correction (not claimed).', over=('inputs', 'configurations'),
  assume=('rotation and interpolation of the libraries are linear: represented by their response to every single pixel',))

P('C08', 'Gain and non-linearity sets hold the right frames and correct drifts',
  'The k-gain and non-linearity calibrations group their frames by exposure time and by gain, each frame once with its time, date and '
  'actual gain (measured, else applied, else commanded), mean frames apart; inconsistent sets are refused. A linear detector under '
  'linearly drifting light gets corrections of one. Products list their inputs, which stay as they are.',
  'all pixel values, exposure times, gains, listing orders and backgrounds',
  'tests run one simulated campaign in one order with a smooth response; mixed or missing frames shift results within tolerance',
  ['corgidrp/calibrate_kgain.py', 'corgidrp/calibrate_nonlin.py'],
  [('kgain_dataset_2_list, ptc_bin2, diff2std, histc_roi, calibrate_kgain', 'corgidrp/calibrate_kgain.py'), ('nonlin_dataset_2_stack, calibrate_nonlin', 'corgidrp/calibrate_nonlin.py')],
  '4-8 frames of 1x2 pixels for the grouping, 6-14 frames of 4x2 pixels with concrete illumination and drift and symbolic backgrounds and gains '
  'for non-linearity; frames of 2x3 (thorough 4x3) pixels for the photon transfer curve, true gains 6.5 and 8 for the product. Drifts need '
  'the shortest exposure first.', over=('inputs', 'configurations'),
  assume=('lowess and interpolation of a constant are that constant', 'for the k-gain product the binned statistics (checked on their own) are those of an ideal detector and the Gaussian fit a recorded width'))

P('C04', 'Flat fields: the mean of the frames, or the planet over its smooth model',
  'A flat made from flat exposures is their mean with the standard error of the mean. An on-sky flat takes from every raster image, '
  'after removal of its sky, the disc of the planet divided by the smoothed median planet to its own place on the detector, averages '
  'overlaps, and is one outside the field and without error. The product lists its inputs, which stay as they are.',
  'all pixel values, planets, bands and sky levels, overlapping or separate raster positions',
  'tests simulate noisy rasters and look at the mean of the flat; placement, overlaps, sky and changed inputs are not seen',
  ['corgidrp/flat.py'], [('create_flatfield, create_onsky_flatfield, flatfield_residuals, combine_flatfield_rasters', 'corgidrp/flat.py')],
  'Flats of 1-3 frames of 1x2 pixels, NaN allowed; rasters of 1-2 (thorough 3) square images of 20x20 pixels with 3 symbolic pixels on the '
  'planet at concrete places.', over=('inputs', 'configurations'),
  assume=('the Gaussian smoothing is a fixed image of its checked argument and the centroid the given place',))

P('C13', 'Trap calibration: dipoles, their fits, and where each trap sits',
  'Trap pumping frames lose their local level; pixels above the threshold beside pixels below it, in enough frames, are dipoles, each '
  'listed once as above, below or both. Fits report the probability function and time constants that made a dipole. A trap is placed '
  'where schemes, orientations and functions agree, with the smallest window of release times. The product lists all of it and its inputs.',
  'all pixel values, amplitudes, release times, errors and locations',
  'tests need a data set that is not there; they compare counts of traps within wide tolerances at one set of temperatures',
  ['corgidrp/pump_trap_calibration.py'],
  [('tpump_analysis, trap_id, trap_fit, trap_fit_const, fit_cs', 'corgidrp/pump_trap_calibration.py'),
   ('illumination_correction, create_TrapCalibration_from_trap_dict, rebuild_dict', 'corgidrp/pump_trap_calibration.py')],
  'Images of 1x3 to 3x3 pixels (illumination) and 4x2 with two pixels not zero in 1-3 frames (dipoles; one symbolic pixel per frame beyond one '
  'frame); one or two traps per pixel, 1-2 temperatures, 2-3 frames per scheme; time constants concrete in the fits. The counter of '
  'unmatched dipoles is not claimed.', over=('inputs', 'configurations'),
  assume=('the curve fit finds the parameters of a model that reproduces the data and ends far from it otherwise',
          'in the location of traps, detection, fits of dipoles and of the cross section are recorded values'))

P('N10', 'PSF subtraction uses every frame as it is and keeps what KLIP returns',
  'KLIP gets exactly the science frames, each recentred from its own star with its own roll angle, flagged pixels masked, the references '
  'likewise, and the settings and mode asked for or documented. The product holds the images KLIP returns, invalid pixels flagged, star, '
  'orientation, headers, name, throughputs and history right. Foreign or mixed data is refused; inputs stay.',
  'all pixel values, flags and star positions; numbers and orders of frames, modes and settings',
  'tests subtract one simulated star with loose tolerances; mixed-up frames, star positions, flags and headers go unnoticed',
  ['corgidrp/l3_to_l4.py', 'corgidrp/data.py'],
  [('do_psf_subtraction', 'corgidrp/l3_to_l4.py'), ('PyKLIPDataset', 'corgidrp/data.py')],
  '1-2 science and 0-2 reference frames (thorough 4 and 3) of 1x2 to 4x5 pixels or cubes of two; 1-2 KL modes; everything but rolls symbolic.',
  over=('inputs', 'configurations'),
  assume=('pyKLIP recentres and subtracts correctly: its results are recorded values',))

P('N11', 'The star is located midway between its satellite spots',
  'The star is searched in the difference of the medians of frames with and without spots, from the guess and with the parameters asked '
  'for or those of the mode, which later calls find unchanged. The search sums all light around the expected spots and takes the vertex. '
  'Every returned frame records the star; spot frames go if asked for; foreign or mixed frames are refused.',
  'all images, frame orders, guesses, parameters, optima and sequences of calls',
  'tests find one simulated star to a fraction of a pixel; wrong medians, parameters that stick, or an undone sum go unnoticed',
  ['corgidrp/l3_to_l4.py', 'corgidrp/star_center.py'],
  [('find_star', 'corgidrp/l3_to_l4.py'),
   ('star_center_from_satellite_spots, calc_star_location_from_spots, calc_spot_separation, find_optimum_1d, find_optimum_2d, circle, '
    'update_parameters', 'corgidrp/star_center.py')],
  '3-5 frames (thorough 6) of 2x3 pixels; search grids of 2-3 steps, 2-3 iterations on images of 9x11 pixels with 3-4 symbolic ones; '
  'parabolas of 4-5 (6) and paraboloids of 12 (20) samples with symbolic vertex; discs of 3x2 pixels with symbolic centre.',
  over=('inputs', 'configurations', 'histories'),
  assume=('each step of the search is checked with the results of the next as arbitrary recorded values; convergence is not covered',))

P('U02', 'Argument checks refuse exactly the wrong values; time stamps are exact',
  'The argument checks hand back every value of the kind, sign and shape asked for unchanged and refuse every other one, not-a-number '
  'included, with the exception asked for. Time stamps in file names are the UTC time to the nearest tenth of a second, across '
  'seconds, days and years.',
  'all numbers, microseconds and array values; kinds of arguments',
  'tests sample a few bad values; not-a-number and times just below a full second are not among them',
  ['corgidrp/check.py', 'corgidrp/data.py'],
  [('real_positive_scalar, real_nonnegative_scalar, positive_scalar_integer, oneD_array, twoD_array', 'corgidrp/check.py'), ('format_ftimeutc', 'corgidrp/data.py')],
  'Scalars unbounded (integers -5..5), arrays of up to 3 dimensions with up to 12 symbolic values; all microseconds at five dates.')
