G = 'property-based testing (Hypothesis): '
N = ('Sampled inputs within stated size bounds; no violation found among the '
     'generated cases. Trusts numpy/scipy/unum and the oracle in the check.')

prop('C01', 'Fields built from arrays keep every datum at its coordinate',
     'A scalar or vector field built from arrays has ascending axes, and every '
     'value, component and mask flag is found at the coordinate it was '
     'supplied for, whatever the direction of the axes, the layout (lists, '
     'arrays, 2-D mesh axes, transposed data, masked arrays) or the dtype. '
     'Exactly the points supplied as masked or NaN are masked, whatever the '
     'object held before, and later changes to the caller\'s arrays do not '
     'show in the field.',
     ['inputs'], 'all grids of at least 2x2 points with monotonic axes, all '
     'masks, NaN patterns, units, containers and presentations of the data',
     'The tests build a handful of fields with ascending axes; orientation x '
     'mask x layout combinations are not sampled.',
     ['IMTreatment/core/scalarfield.py', 'IMTreatment/core/vectorfield.py',
      'IMTreatment/core/field.py'],
     [('import_from_arrays', 'core/scalarfield.py, core/vectorfield.py'),
      ('values and mask setters', 'core/scalarfield.py')],
     G + 'reference model of the physical data over presentations', N)

prop('C02', 'Field arithmetic is pointwise, unit-aware and mask-aware',
     'Adding, subtracting, multiplying, dividing, negating or raising to a '
     'power scalar and vector fields with numbers, quantities, arrays or other '
     'fields gives at each shared point the physical result of the operation '
     '(compatible units converted, result unit consistent), on the points '
     'common to both operands. A point is masked exactly when it is masked in '
     'an operand or divided by zero by an array or field. Operands of '
     'incompatible dimension are rejected, and operands are never modified.',
     ['inputs'], 'all pairs of operands on equal or partially shared axes '
     '(at least 2x2 shared points), all masks and units',
     'Tests add two stored fields in one unit; unit pairs, partially shared '
     'axes and masks on either side are not crossed.',
     ['IMTreatment/core/scalarfield.py', 'IMTreatment/core/vectorfield.py'],
     [('__add__, __mul__, __truediv__, __rtruediv__, __pow__',
       'core/scalarfield.py, core/vectorfield.py')],
     G + 'differential against numpy arithmetic in SI on masked grids', N)

prop('C04', 'Unit changes keep the physical data; scaling multiplies it exactly',
     'Changing the unit of an axis, of the values or of the times of a field, '
     'profile, point set or temporal set of fields leaves every physical '
     'quantity, the mask and all other parts unchanged, and a unit of another '
     'dimension is refused without altering the object. Scaling by numbers or '
     'quantities multiplies exactly the chosen axis, values or times (and '
     'their unit); a negative factor on a field axis keeps the axis ascending '
     'and carries values and mask along, the vector component along that axis '
     'changing sign.',
     ['inputs', 'sequences'], 'all objects, masks, chains of unit changes and '
     'signed factors',
     'The tests change one unit of one stored object at a time and never look '
     'at the mask under a negative factor or at temporal sets.',
     ['IMTreatment/core/field.py', 'IMTreatment/core/scalarfield.py',
      'IMTreatment/core/vectorfield.py', 'IMTreatment/core/profile.py',
      'IMTreatment/core/points.py', 'IMTreatment/core/temporalfields.py'],
     [('change_unit, scale', 'core/field.py and its subclasses, '
       'core/profile.py, core/points.py, core/temporalfields.py')],
     G + 'reference model of the numbers, round trip of unit changes', N)

prop('C05', 'Cropping, extending, rotating, shifting and mirroring move data rigidly',
     'Cropping a field (by coordinates or indices), extending it, rotating it '
     'by quarter turns, moving its origin, mirroring it about a plane or '
     'cropping its masked border gives exactly the expected set of points, '
     'each with the value, vector components (turned or mirrored with the '
     'frame) and mask flag of the point it comes from; new points are masked '
     'unless a fill value is given. The same holds for every field of a '
     'temporal set, whose axes follow its fields, and a copy returned by such '
     'an operation is independent of the original.',
     ['inputs', 'sequences'], 'all fields and temporal sets, masks, windows '
     '(on, between and outside nodes), angles multiple of 90 degrees, chains '
     'of rotations, aligned symmetry planes on even axes',
     'The tests apply each operation once to one stored field and compare '
     'with a stored result; borders, masks and temporal sets are not crossed.',
     ['IMTreatment/core/field.py', 'IMTreatment/core/fields.py',
      'IMTreatment/core/scalarfield.py', 'IMTreatment/core/vectorfield.py',
      'IMTreatment/core/temporalfields.py'],
     [('crop, extend, rotate, set_origin, mirroring, crop_masked_border',
       'core/field.py, core/scalarfield.py, core/vectorfield.py, '
       'core/temporalfields.py')],
     G + 'reference model mapping every point to its transformed coordinate', N)

prop('C06', 'Reading a field returns what its stored data say',
     'Values at nodes, indices or interpolated positions, profiles along a '
     'line or averaged over an interval, nearest/bounding/decimal indices, '
     'iteration, component and magnitude views, norm, min/max/mean/median, '
     'scatter export, histograms, integrals, zone centers and neighbouring '
     'points of a scalar or vector field agree with its axes, values, mask and '
     'units. A position touching a masked point reads as masked, a position '
     'outside the field is refused, and == tells fields apart when any value, '
     'axis, mask flag or unit differs. Reading never changes the field, and '
     'what is returned does not share memory with it.',
     ['inputs'], 'all fields, masks, units, positions and intervals (interior '
     'of a cell: within the two triangulations of the cell)',
     'The tests read a few stored positions of one unmasked field.',
     ['IMTreatment/core/field.py', 'IMTreatment/core/scalarfield.py',
      'IMTreatment/core/vectorfield.py'],
     [('get_value, get_profile, get_indice_on_axe, get_points_around, '
       'get_zones_centers, get_histogram, integrate_over_*, get_norm, '
       '__iter__, __eq__', 'core/field.py, core/scalarfield.py, '
       'core/vectorfield.py')],
     G + 'differential against direct computation on the stored arrays', N)

prop('C07', 'Filling, smoothing and resampling in space change only what they should',
     'Filling a field leaves its valid points untouched and gives every masked '
     'point the asked value, the value of a nearest valid point, or an '
     'interpolation exact on affine fields (nearest value outside the valid '
     'points); smoothing is the asked filter of the filled field. Reducing the '
     'resolution averages the valid points of each block (masked only when '
     'the block has none), and making a field evenly spaced samples it '
     'linearly between the same bounds at its smallest spacing. Axes, units '
     'and times are kept, the same holds for each field of a temporal set, and '
     'the original is only changed when asked inplace.',
     ['inputs'], 'all fields and temporal sets with a valid point, masks '
     '(isolated, borders, whole rows), filters, factors even and odd, inplace '
     'or not', 'The tests fill, smooth and reduce one stored field each; whole '
     'masked rows, odd factors, inplace units and temporal sets are not '
     'exercised.',
     ['IMTreatment/core/scalarfield.py', 'IMTreatment/core/vectorfield.py',
      'IMTreatment/core/fields.py', 'IMTreatment/core/temporalfields.py',
      'IMTreatment/core/temporalscalarfields.py',
      'IMTreatment/core/temporalvectorfields.py'],
     [('fill, smooth, reduce_spatial_resolution, make_evenly_spaced',
       'core/scalarfield.py, core/vectorfield.py, core/temporal*.py')],
     G + 'independent filters, block means, affine-exactness and nearest-point '
     'oracles', N)

prop('C08', 'Profiles keep their points together, sorted, masked and comparable',
     'A profile built from any points (lists, arrays, masked arrays, any order, '
     'NaN values) and then changed by any sequence of additions, removals, '
     'assignments and copies holds exactly those points with x ascending, each '
     'x with its own y and mask flag, independent of the caller\'s arrays and of '
     'other profiles. Arithmetic with numbers, quantities and profiles on the '
     'same x is pointwise with units converted, masked where an operand is '
     'masked or the divisor profile is zero, rejects mismatched axes or '
     'dimensions and never changes its operands. Two profiles are equal exactly '
     'when their x, mask, visible y and units are; min, max and mean run over '
     'the visible points.',
     ['inputs', 'histories'], 'all profiles, all sequences of operations, all '
     'operands; combined profiles share their x axis and its unit',
     'Tests do each operation once on one stored profile in one unit.',
     ['IMTreatment/core/profile.py'],
     [('Profile constructor, setters, add_point(s), remove_point, __add__, '
       '__mul__, __truediv__, __pow__, __eq__', 'core/profile.py')],
     G + 'stateful model-based testing and numpy differential', N)

prop('C09', 'Profile analysis agrees with its definition on the visible points',
     'Cropping, filling, smoothing, resampling (augment_resolution, '
     'evenly_space), rotating and removing duplicates or outliers give exactly '
     'the points their definition says, never changing visible points they '
     'should keep. Interpolated values and positions lie on the broken line '
     'through the visible points, all positions of a value are given, and '
     'gradient, integral, spectrum, convolution, auto-correlation, phase shift, '
     'extrema, density estimates, fits and wavelets equal their mathematical '
     'definition with matching units and axes. The profile itself only changes '
     'when asked in place.',
     ['inputs'], 'all profiles with enough visible points for the operation '
     '(and even spacing where documented)',
     'Tests compare one stored profile with stored outputs; bounds, masks and '
     'steps are not varied.',
     ['IMTreatment/core/profile.py'],
     [('crop, fill, smooth, evenly_space, augment_resolution, '
       'get_value_position, get_gradient, get_integral, get_spectrum, '
       'get_convolution, get_dephasage', 'core/profile.py')],
     G + 'independent reference implementations of each definition', N)

prop('C10', 'Point clouds keep position, value and orientation rows together',
     'Under any sequence of additions, removals, crops, cuts, sorts, sums of '
     'clouds, unit changes, scalings, rotations, axis swaps and copies, Points '
     'and OrientedPoints hold exactly the expected points, every position with '
     'its own value and orientation; sums convert units, new objects share '
     'nothing with their sources and non-in-place operations leave the '
     'original alone. Duplicates removal, smoothing, refinement, fitting, '
     'velocities, distances, profiles, evolution along a scalar field, '
     'densities, hulls and clusters agree with their definition. Two clouds '
     'are equal exactly when positions, values and units are.',
     ['inputs', 'histories'], 'all clouds (empty, without values, oriented), '
     'all sequences of operations, all bounds including points on the bounds',
     'Tests apply each operation once to a stored cloud.',
     ['IMTreatment/core/points.py', 'IMTreatment/core/orientedpoints.py'],
     [('add, remove, crop, cut, sort, __add__, change_unit, scale, rotate, '
       'reverse, remove_doublons, get_evolution_on_sf, get_points_density, '
       'get_envelope, order_on_line',
       'core/points.py'),
      ('add, remove, crop, sort, rotate', 'core/orientedpoints.py')],
     G + 'stateful model-based testing, reference definitions', N)

prop('C11', 'A time series stays an ordered sequence of whole frames on one grid',
     'Whatever sequence of field additions (in any order, time unit), '
     'removals, arithmetic, merges, crops in space or time, scalings and unit '
     'changes is applied, a temporal set of fields holds exactly the expected '
     'frames sorted by time, each time with its own frame, all frames and the '
     'set sharing the same axes and units. Fields of another grid or type are '
     'refused and leave the set unchanged; the set is independent of the '
     'fields given to it, of its copies and of operands of arithmetic. '
     'Indexing, iteration, masks and component views (values, Vx, Vy, '
     'magnitude) show these frames.',
     ['histories'], 'all sequences of operations on scalar and vector series',
     'Tests build series in time order and apply one operation.',
     ['IMTreatment/core/temporalfields.py', 'IMTreatment/core/fields.py',
      'IMTreatment/core/temporalscalarfields.py',
      'IMTreatment/core/temporalvectorfields.py'],
     [('add_field, remove_fields, __add__, __mul__, __truediv__, scale, '
       'change_unit, crop, times', 'core/temporalfields.py')],
     G + 'stateful model-based testing against a sorted list of frames', N)

prop('C12', 'Ensemble statistics use exactly the valid values of each point',
     'Mean, minimum and maximum fields, fluctuations, mean and turbulent '
     'kinetic energy, turbulence intensity and Reynolds stresses of a time '
     'series equal, at every point, the statistic over the frames where that '
     'point is not masked; points with fewer valid values than the requested '
     'minimum are masked, times and units follow. Autocorrelation and '
     'recurrence maps follow their definition, and the background of an image '
     'series is the steady value of each pixel whatever its outliers. The '
     'series itself is never changed.',
     ['inputs'], 'all series, masks varying in time, thresholds',
     'Tests use one stored series and compare with stored results.',
     ['IMTreatment/core/temporalfields.py',
      'IMTreatment/core/temporalscalarfields.py',
      'IMTreatment/core/temporalvectorfields.py'],
     [('get_mean_field, get_fluctuant_fields, get_recurrence_map',
       'core/temporalfields.py'),
      ('get_min_field, get_max_field, get_background, substract_background',
       'core/temporalscalarfields.py'),
      ('get_tke, get_reynolds_stress, get_turbulent_intensity, '
       'get_time_auto_correlation', 'core/temporalvectorfields.py')],
     G + 'independent NaN-aware reference statistics', N)

prop('C13', 'Time-wise operations act on the time signal of each point',
     'Time profiles read (and injected ones overwrite) exactly the values of '
     'the requested point, or of the point given for each time, with their '
     'masks, times and units. Interpolated fields are linear in time between '
     'the two surrounding frames; augmenting, reducing, filling, filtering in '
     'time and replacing or removing abnormal frames give the frames their '
     'definition says and keep the others. Temporal and spatial spectra, '
     'spectrum maps and phase maps are those of the underlying signals. The '
     'original only changes when asked in place.',
     ['inputs'], 'all series (evenly spaced in time where spectra or filters '
     'are asked), masks, positions, intervals and factors',
     'Tests use one series, one point and one factor each.',
     ['IMTreatment/core/temporalfields.py',
      'IMTreatment/core/temporalscalarfields.py',
      'IMTreatment/core/temporalvectorfields.py'],
     [('get_time_profile, inject_time_profile, get_interpolated_field, '
       'augment_temporal_resolution, reduce_temporal_resolution, '
       'remove_weird_fields, get_temporal_spectrum, get_spectrum_map',
       'core/temporalfields.py'),
      ('fill, get_phase_map, get_spectral_filtering',
       'core/temporalscalarfields.py')],
     G + 'independent reference implementations per time signal', N)

prop('C14', 'Sets of point clouds and spatial mosaics keep their members intact',
     'After any sequence of additions (in any order and time unit), removals, '
     'crops in space, value and time, scalings, unit changes and smoothings, a '
     'temporal set of point clouds holds exactly the expected clouds sorted by '
     'time, each with its own time. A mosaic of fields converts added fields '
     'to its units and drops their masked borders; arithmetic with numbers '
     'and quantities, scaling, quarter turns, origin shifts and smoothing act on each field; '
     'a value read at a point is the mean of the covering fields, grids and '
     'profiles gather these values, and points covered by no field are masked '
     'or refused. The objects given, and the set itself when not in place, '
     'never change.',
     ['inputs', 'histories'], 'all sequences of operations on point sets; all '
     'scalar and vector mosaics with any overlap',
     'Tests have no spatial mosaic and build one set of clouds in time order.',
     ['IMTreatment/core/temporalpoints.py', 'IMTreatment/core/spatialfields.py',
      'IMTreatment/core/spatialscalarfields.py',
      'IMTreatment/core/spatialvectorfields.py'],
     [('add_pts, remove_pts, crop, scale, change_unit, smooth',
       'core/temporalpoints.py'),
      ('add_field, get_value, get_values_on_grid, get_profile, __mul__, '
       '__truediv__', 'core/spatialfields.py')],
     G + 'stateful model-based testing against a list model; reference '
     'interpolation and mean over the covering fields', N)

prop('C24', 'Unit strings mean what they say and nothing else is evaluated',
     'A unit string made of unit names, products, quotients, powers (** or '
     '^), parentheses and numeric factors evaluates to that physical unit, '
     'whatever its nesting and spacing, and every unit name of the unit '
     'library is known. Anything else (calls, attributes, unknown names, '
     'malformed or non-unit expressions) is refused with an exception and '
     'never executed; the empty string is the dimensionless unit.',
     ['inputs'], 'all unit expressions up to four levels of nesting; arbitrary '
     'other strings',
     'Tests read a handful of simple units.',
     ['IMTreatment/utils/units.py'],
     [('make_unit', 'utils/units.py')],
     G + 'expression trees evaluated independently in SI dimensions; '
     'side-effect canaries in refused strings', N)

prop('C15', 'What is written in a file is what is read back',
     'Any object of the library written in a native file (compressed or not) '
     'reads back equal: values, masks, axes, units, times, names. Text, matlab '
     'and picture exports read back with their axes, units, masks and values '
     '(pictures: grey levels, in the same orientation). A text file with '
     'columns in any order, lines in any order, missing values or a header is '
     'put on the right grid points. A vtk export holds each point with its own '
     'value, and text or matlab exports of critical points those of each time '
     'and kind. Writing never changes the object written.',
     ['inputs'], 'all fields, profiles, point sets and series; generated text '
     'files; float images with grey levels 0-255',
     'Tests read back files written once, of one object of each kind.',
     ['IMTreatment/file_operation/file_operation.py'],
     [('export_to_file, import_from_file, export_to_ascii, import_*_from_ascii, '
       'export_to_matlab, import_from_matlab, export_to_picture, '
       'import_from_picture(s), export_to_vtk',
       'file_operation/file_operation.py')],
     G + 'round trips, and parsing of the written files by an independent '
     'reader', N)

prop('C25', 'Measurement folders are read in order and at the right places',
     'A DaVis picture or vector file (IM7, VC7, float, 16 bits or extended '
     'with peaks) is read with its scales, offsets, units, mirrored axes (and '
     'the matching sign of the vectors) and missing vectors at their places. '
     'A folder of such files, of native files or of text files becomes the '
     'series (or the mosaic) of its files in the order of their names, with '
     'the asked increment, subset and time step, other files being ignored; '
     'the converters write the same series to a native file.',
     ['inputs'], 'generated IM7/VC7 files and folders written with the ReadIM '
     'library; generated native and text folders',
     'Tests have no DaVis file and one folder.',
     ['IMTreatment/file_operation/file_operation.py'],
     [('import_from_IM7, import_from_IM7s, import_from_VC7, import_from_VC7s, '
       'IM7_to_imt, VC7_to_imt, imts_to_imt, import_vfs_from_ascii',
       'file_operation/file_operation.py')],
     G + 'files generated from a model, read back and compared with it', N)

prop('C27', 'File sets list, filter and delete exactly the files asked',
     'A set of files built from a regular expression holds exactly the '
     'matching files and folders of the tree (up to the asked depth), and '
     'stays consistent (paths, existence, kinds) after any sequence of '
     'additions, removals by index or expression, sums and copies, which never '
     'touch the other sets or the files themselves. Deletion removes exactly '
     'the files of the set (or the matching files of the matching folders), '
     'only after an explicit agreement, and nothing else. The search of files '
     'in a tree gives each folder holding a match, once; invalid paths are '
     'refused.',
     ['inputs', 'histories'], 'all file trees of at most three levels with '
     'generated sequences of operations and typed answers',
     'Tests never use file sets, and deletion cannot be tried on real data.',
     ['IMTreatment/utils/files.py', 'IMTreatment/file_operation/file_operation.py'],
     [('Files, remove_files_in_dirs', 'utils/files.py'),
      ('check_path, find_file_in_path', 'file_operation/file_operation.py')],
     G + 'stateful model of the set and of the tree, with the deletion calls '
     'guarded', N)

prop('C17', 'Differential operators give the derivatives of the field',
     'Gradients of scalar and vector fields are the second order differences '
     '(one-sided on the border) of the values on the actual grid, even or '
     'not, with units converted, and are masked exactly where the needed '
     'neighbours are missing; divergence (of a field or a series), gradient '
     'fields, track field, shear stress, Jacobian eigenvalues and eigenvectors '
     'and Kenwright fields follow from them by their definition. A field is '
     'reconstructed from its gradients up to its mean when the trapezoidal '
     'rule is exact. Extrapolation to a wall keeps the data, is zero at the '
     'wall and linear in between. The given field never changes.',
     ['inputs'], 'all fields with at least two points per axis; evenly spaced, '
     'unmasked fields for reconstruction and extrapolation',
     'Tests compare one field with stored results.',
     ['IMTreatment/field_treatment/field_treatment.py'],
     [('get_gradients, get_divergence, get_grad_field, get_track_field, '
       'get_shear_stress, get_jacobian_eigenproperties, get_Kenwright_field, '
       'reconstruct_from_gradients, extrapolate_until_wall',
       'field_treatment/field_treatment.py')],
     G + 'independent finite differences, closed-form 2x2 eigenproblems, exact '
     'polynomial fields', N)

prop('C20', 'Vortex criteria follow their definition at every decidable point',
     'The local criteria (vorticity, divergence, swirling strengths, Q, Nk, '
     'Delta, lambda2, residual and shear vorticity) are the closed-form '
     'functions of the velocity gradients, on even and uneven grids, with '
     'units converted; the non-local ones (gamma1, gamma1b, gamma2, gamma2b, '
     'kappa, angle deviation, non-local residual vorticity, enstrophy) are the '
     'defined means over the neighbours closer than the radius, and Stokes '
     'vorticity and iota their defined circulation and angle variation. '
     'Criteria are masked where a needed point is missing, masked by the '
     'caller or outside the field, and nowhere else. A series gives the '
     'series of the criteria of its fields, and the given field never '
     'changes.',
     ['inputs'], 'all vector fields with at least two points per axis, with '
     'and without masks; evenly spaced for the non-local criteria',
     'Tests compare one field with stored results.',
     ['IMTreatment/vortex_criterions/vortex_criterions.py'],
     [('get_angle_deviation ... get_shear_vorticity',
       'vortex_criterions/vortex_criterions.py')],
     G + 'independent closed-form references computed point by point', N)

prop('C16', 'A POD gives the modes of the series and rebuilds its fields',
     'The proper orthogonal decomposition of a series of scalar or vector '
     'fields gives the mean field, orthonormal modes sorted by energy, and '
     'temporal evolutions which are the projections of the fluctuations on '
     'the modes; with all modes it rebuilds the series exactly (the masked '
     'points being interpolated first), and with some modes, or at other '
     'times, their defined sum. After any history of crops in space and time, '
     'scalings, removal of modes, time refinement and smoothing, in place or '
     'not, the reconstruction is the one of the modified modes, and analyses '
     '(energies, coherences) or the operations that are not in place leave '
     'the decomposition and the series as they were.',
     ['inputs', 'histories'], 'all series of two to five fields that are not '
     'all equal, on even and uneven grids; sequences of up to six operations',
     'No test uses this module.',
     ['IMTreatment/pod/pod.py'],
     [('modal_decomposition, ModalFields', 'pod/pod.py')],
     G + 'singular value decomposition of the data as reference, and a model '
     'of the decomposition carried along the history', N)

prop('C18', 'Streamlines follow the field from their start to a boundary',
     'Streamlines, field lines and track lines start at the given points (the '
     'ones outside of the field being skipped), advance step by step along '
     'the interpolated velocity, its normal or its opposite (upstream), with '
     'the asked spacing in time or length, on even and uneven grids, and only '
     'stop when they leave the field, meet a masked point, come to rest or '
     'reach the number of steps. Fast streamlines take equal steps along the '
     'linearly or cubically interpolated velocity and also stop when they '
     'close on themselves. Lines from oriented points start from their '
     'positions and orientations. The field is never modified.',
     ['inputs'], 'all fields with at least two points per axis (four for the '
     'cubic interpolation), with any starting points',
     'Tests compare four lines with stored results.',
     ['IMTreatment/field_treatment/field_treatment.py',
      'IMTreatment/core/orientedpoints.py'],
     [('get_streamlines, get_streamlines_fast, get_fieldlines, '
       'get_tracklines', 'field_treatment/field_treatment.py'),
      ('OrientedPoints.get_streamlines, get_streamlines_from_orientations',
       'core/orientedpoints.py')],
     G + 'each step compared with an independent integration of the '
     'interpolated velocity', N)

prop('C19', 'Vortex systems sum the velocities of vortices, images and fields',
     'Each vortex model gives, at every point and on every grid, the velocity '
     'of its closed form around its position, and only movable vortices can '
     'be moved. After any history of additions of vortices, walls and custom '
     'fields, removals, copies and evolutions, the velocity of a system (at a '
     'point, on a grid, by vortex, or on a test vortex) is the sum of the '
     'ones of its vortices, of their mirror images through the walls, and of '
     'its custom fields: no vortex makes flow cross a wall. Evolutions move '
     'every movable vortex by the velocity of the whole system at its '
     'position before the step, without changing the initial system, and '
     'give the fields and tracks of the successive systems.',
     ['inputs', 'histories'], 'all vortex models but the step and horseshoe '
     'ones; systems of up to eight operations with axisymmetric vortices and '
     'at most one wall per direction',
     'Tests compare single fields of the models with stored results.',
     ['IMTreatment/vortex_creation/vortex_creation.py'],
     [('Vortex models, Wall, CustomField, VortexSystem',
       'vortex_creation/vortex_creation.py')],
     G + 'closed-form velocities, and a model of the system carried along '
     'the history', N)

prop('C26', 'Critical points and vortices are found where the field has them',
     'Every grid cell around which the velocity turns once (none of its '
     'corners being at rest) gives exactly one critical point, and the others '
     'none: at the center of the cell, or where the bilinear velocity is '
     'null, on even and uneven grids; turning backward gives a saddle, and '
     'otherwise the mean gradients of the cell decide between nodes (in or '
     'out) and foci (by sense of rotation). Saddles come with the unstable '
     'then the stable direction. The criterion methods give the weighted '
     'centers of the zones above the threshold, by sign. A series gives, at '
     'its times and in its units, the points of each field, whatever the '
     'number of threads; walls and smoothing do not change the given field.',
     ['inputs'], 'all fields without masked values and with at least three '
     'points per axis; evenly spaced for criteria and walls',
     'Tests compare one field and one series with stored results.',
     ['IMTreatment/vortex_detection/vortex_detection.py',
      'IMTreatment/core/scalarfield.py'],
     [('get_critical_points, get_vortex_position, VF',
       'vortex_detection/vortex_detection.py')],
     G + 'index of each cell computed from the angles of its corners, zeros '
     'of the bilinear cells and flood filled zones as references', N)

prop('C28', 'Sets of critical points keep their points, times, units and tracks',
     'Through any history of additions, removals, croppings, scalings, unit '
     'and origin changes, copies and sums, a CritPoints object holds for each '
     'time (sorted) and type exactly the expected points and units; '
     'trajectories follow these changes, or are dropped when they no longer '
     'match; what is not done in place leaves the original alone, and '
     'duplicate times or other units are refused. In computed trajectories '
     'each point appears once, times are successive, links do not exceed '
     'epsilon and closest points are linked first. Cleaning, smoothing and '
     'breaking act on whole trajectories and lose no other point. '
     'Simplification merges points closer than the distance into their '
     'center of mass and conserves the topological index. Mean trajectories, '
     'fields rebuilt from them, densities and counts of direction changes '
     'are those of the points.',
     ['inputs', 'histories'], 'histories of up to eight operations on up to '
     'six times, with up to four points per type and time',
     'Tests compare the results for one detected series with stored ones.',
     ['IMTreatment/vortex_detection/vortex_detection.py',
      'IMTreatment/core/points.py', 'IMTreatment/core/orientedpoints.py'],
     [('CritPoints, TopoPoints', 'vortex_detection/vortex_detection.py')],
     G + 'a model of the set carried along the history, stable matching '
     'invariants for the trajectories, and a reference agglomeration', N)

prop('C03', 'Operations not in place leave objects alone and share nothing',
     'Calling any reading, analysis, arithmetic or transforming method of a '
     'field, profile, point cloud, time series or mosaic (not in place), or '
     'any differential or vortex criterion of a field, leaves the object and '
     'the arguments exactly as they were, even when the call is refused; '
     'called again it gives the same result. What is returned shares no data '
     'with the object, the arguments or the earlier results: changing one '
     'never shows in the others. Done in place, an operation leaves in the '
     'object exactly what it returns otherwise, and is refused in the same '
     'cases.',
     ['inputs'], 'about 250 pairs of class and method; methods documented to '
     'act in place (origin, unit changes, even spacing, additions) excepted',
     'Tests call a method once and look at its result only.',
     ['IMTreatment/core', 'IMTreatment/field_treatment/field_treatment.py',
      'IMTreatment/vortex_criterions/vortex_criterions.py'],
     [('ScalarField, VectorField, Profile, Points, OrientedPoints, '
       'TemporalScalarFields, TemporalVectorFields, SpatialScalarFields, '
       'SpatialVectorFields, TemporalPoints', 'core/*.py')],
     G + 'snapshots of everything public before and after each call, and '
     'after overwriting every array of the results and of the object', N)

prop('C23', 'Boundary layer models and measured layer properties',
     'The Blasius, Falkner-Skan, Thwaites and wall and wake law models give, '
     'at any position, the values of their laws and solutions of their '
     'equations in SI units; position from thickness and y from mu undo '
     'thickness and mu, whichever positions are asked. For a measured profile '
     'the thickness, displacement, momentum and Clauser thicknesses and shape '
     'factor are those of the points of the layer, masked points being '
     'ignored; for a field they are those of each of its profiles, with the '
     'units of the two axes. Wall shear stress recovers the stress of a '
     'profile built from it, and separation detection the foot of the '
     'zero velocity line, for any wall orientation.',
     ['inputs'], 'profiles of up to nine points, fields up to 8 x 7 points, '
     'wall at 0, m within [-0.085, 0.3]',
     'No test exercises this module.',
     ['IMTreatment/boundary_layer/boundary_layer.py'],
     [('BlasiusBL, FalknerSkanBL, ThwaitesBL, WallLaw, WakeLaw, '
       'get_bl_thickness, get_displ_thickness, get_momentum_thickness, '
       'get_clauser_thickness, get_shape_factor, get_shear_stress, '
       'get_separation_position', 'boundary_layer/boundary_layer.py')],
     G + 'closed forms, an independent Runge-Kutta integration, trapezoidal '
     'references and inverse relations', N)

prop('C21', 'Vortex radius, center, circulation and integrated properties',
     'For a vortex designated by a position near its center, the radius is '
     'that of the disk with the area of the zone, joined to the center, where '
     'the (non-local) residual vorticity of the sign of the center exceeds '
     'the wanted fraction of the largest value of the zone; 0 when there is '
     'none. The center is the center of mass of this zone. Any property is '
     'the integral of its criterion over the zone of the size criterion, or '
     'its value at the center, and the circulation that of the vorticity '
     'where it exceeds the fraction of its maximum. Reversing the flow leaves '
     'radii and reverses circulations. Evolutions take each time of the '
     'trajectory with its own field, whatever their order.',
     ['inputs'], 'up to three vortices on even grids up to 9 x 9, series of '
     'up to four fields', 'No test exercises this module.',
     ['IMTreatment/vortex_properties/vortex_properties.py'],
     [('get_vortex_radius, get_vortex_radius_time_evolution, '
       'get_vortex_property, get_vortex_property_time_evolution, '
       'get_vortex_circulation', 'vortex_properties/vortex_properties.py')],
     G + 'a flood-fill reference for the zones, and sums over them', N)

prop('C22', 'Potential flow around solids and walls',
     'The flow around any set of solids and open walls is the free stream '
     'plus that of source panels which let nothing through: no velocity '
     'normal to the middle of the panels, the refined outline being the given '
     'one. Velocities follow objects added later, tend to the free stream far '
     'from solids, and are the same asked point by point, on a grid or on a '
     'line in any direction, in m and m/s, masked inside the solids when '
     'asked. Pressure coefficients follow from them (Bernoulli). The pressure '
     'length upstream of an obstacle and its separation position scale with '
     'the obstacle and give back the wanted pressure.',
     ['inputs', 'histories'], 'up to three objects of up to about 40 panels',
     'No test exercises this module.',
     ['IMTreatment/potential_flow/potential_flow.py'],
     [('System, object_1D, object_2D, Panel, integral, '
       'get_separation_position, get_gradP_length',
       'potential_flow/potential_flow.py')],
     G + 'the closed form of source panels in complex variables, solved '
     'independently', N)

prop('C29', 'Displays show the stored data at its coordinates',
     'Whatever the field, profile, cloud of points, mosaic or set of critical '
     'points, its display shows the stored values at the stored coordinates, '
     'masked values excepted, with labels and colorbars giving the units and '
     'color limits of the data; the displayed object is left unchanged. In '
     'the interactive display of a series, any sequence of buttons, keys, '
     'typed numbers, slider moves and played steps leads to the expected '
     'frame, and exactly that frame is shown, whatever the size of the '
     'buffer; overlaid and linked displays stay on the same frame, and saved '
     'animations hold every asked frame.',
     ['inputs', 'histories'], 'images of evenly spaced fields with at least '
     'two points per axis, series of up to 13 frames, histories of up to 14 '
     'actions; contents of the figure as given to matplotlib',
     'Tests draw some figures without looking at what they show.',
     ['IMTreatment/plotlib/plotlib.py', 'IMTreatment/core/scalarfield.py',
      'IMTreatment/core/vectorfield.py', 'IMTreatment/core/profile.py',
      'IMTreatment/core/points.py', 'IMTreatment/core/temporalfields.py',
      'IMTreatment/vortex_detection/vortex_detection.py',
      'IMTreatment/pod/pod.py'],
     [('ButtonManager, Displayer, colored_plot, save_animation',
       'plotlib/plotlib.py'),
      ('display, display_multiple', 'core/*.py')],
     G + 'the artists of the figure compared with the data, and a reference '
     'player carried along the history', N)

prop('C30', 'Memoized, silenced and counted computations are themselves',
     'A function memoized in a file gives, after any history of calls, '
     'restarts, failures of the function and writings of the file cut or '
     'spoiled at any point, the same results as without it, computing again '
     'nothing that the file still holds. Silencing the outputs hides what is '
     'written in between and nothing else, even when an error occurs, and '
     'leaves no file open. The progress counter shows each asked step once '
     'with the right count, part and times, then ends; the checks of types '
     'let exactly the right calls through.',
     ['inputs', 'histories', 'crash points'], 'histories of up to ten '
     'operations, counts up to 60, a stand-in for the clock',
     'No test exercises these helpers.',
     ['IMTreatment/utils/memoization.py', 'IMTreatment/utils/types.py',
      'IMTreatment/utils/codeinteraction.py',
      'IMTreatment/utils/progresscounter.py'],
     [('memoize_to_file', 'utils/memoization.py'),
      ('RemoveFortranOutput', 'utils/codeinteraction.py'),
      ('ProgressCounter', 'utils/progresscounter.py'),
      ('TypeTest, ReturnTest', 'utils/types.py')],
     G + 'the plain function with a count of its calls, the content of the '
     'outputs, and the text printed under a controlled clock', N)
