"""
The properties, as data: properties.jsonl, MANIFEST.json and the table of
DESIGN.md are made of this by make_manifest.py.
"""
SPECS = []


def spec(pid, title, statement, over, quant, why, files, mech, generated,
        oracle, observe=()):
    SPECS.append(dict(pid=pid, title=title, statement=statement, over=over,
        quant=quant, why=why, files=['flowtracks/%s' % f if '/' not in f
            else f for f in files],
        mech=[dict(name=n, where=w) for n, w in mech], generated=generated,
        oracle=oracle, observe=list(observe)))


spec('C01', 'Trajectories are rebuilt exactly from linked ptv_is frames',
    'Reading a directory of ptv_is frame files yields each chain of linked '
    'particles that ends within the frames read exactly once: its points in '
    'order, each with the position of its row converted from mm to m, and the '
    'number of its frame as time, also if the series has every second or '
    'tenth frame number only. Rows may be in any order, frames may be '
    'empty or of one row, and trajectories of one point count when the '
    'minimal length allows; chains still open in the last frame are left out, '
    'ids are unique in the result. Files which are not part of the named '
    'series are ignored, also when frame numbers gain a digit or the name has '
    'characters with a special meaning in patterns.',
    ['inputs'], 'All series of linked frames: number of particles, starts, '
    'lengths, row orders, frame numbers, file names.',
    'The tests read one small fixed directory of frames and check counts.',
    ['io.py'],
    [('linked-list building of trajectories', 'io.py iter_trajectories_ptvis'),
        ('discovery and order of frame files', 'io.py FramesIterator')],
    'Films of up to 7 (long: 25) particles over up to 10 (40) frames, with '
    'random starts, lengths, row order, stray files and templates.',
    'The film itself: the generator knows the chains it wrote.',
    ['return value of trajectories_ptvis / iter_trajectories_ptvis'])

spec('C02', 'Derived velocity and acceleration are forward differences',
    'For ptv_is data, which has positions only, the velocity of each point '
    'of a trajectory is the difference to the next position times the frame '
    'rate, zero at the last point; the acceleration is likewise the forward '
    'difference of velocities, zero at the last two. This holds for any '
    'frame rate and length of trajectory and for each of the ways of '
    'reading, as list, iterator, or through the general reading function.',
    ['inputs', 'configurations'],
    'All trajectories, frame rates, lengths of 1 up, and reading functions.',
    'The tests do not compare derived values to anything.',
    ['io.py'],
    [('differences of positions', 'io.py iter_trajectories_ptvis')],
    'Films as in C01, several frame rates, four reading functions.',
    'Differences computed from the generated positions.')

spec('C03', 'Frame range and minimal length select trajectories exactly',
    'Reading ptv_is or xuap frames over a range, both ends included and each '
    'optional, gives what reading a directory with only these frames gives: '
    'trajectories of the chains within the range, of those which end in it '
    'and have at least the minimal length in points there; none if no '
    'frame is in the range. The default minimal length is as documented, and '
    'the list and the iterator give the same.',
    ['inputs', 'configurations'],
    'All films, ranges (partly or wholly outside the data too) and minimal '
    'lengths.', 'The tests use one range in one directory.',
    ['io.py'],
    [('range of frames read', 'io.py FramesIterator'),
        ('minimal length', 'io.py iter_trajectories_ptvis')],
    'Films in either format with a range that may start or end outside of '
    'them, and lengths 0-5.',
    'Chains recomputed over the frames in range; a directory with only these '
    'files, differentially.')

spec('C04', 'xuap frames are read with their own smoothed data',
    'Reading xuap frame files yields each chain of linked particles that '
    'ends within the frames once, with the position and velocity of its '
    'rows, in order and in the units of the file, the forward difference of '
    'velocities as acceleration, and frame numbers as time. It does so '
    'whether links are written as integers or floats and whether rows have '
    'a trailing column.',
    ['inputs'], 'All linked xuap films and the layouts they come in.',
    'The tests read one directory and check that it does not crash or the '
    'number of trajectories.',
    ['io.py'], [('parsing of xuap rows', 'io.py FramesIterator, '
        'iter_trajectories_ptvis')],
    'Films as in C01 with random velocity and acceleration, four layouts.',
    'The generated film.')

spec('C05', 'A concatenated ptv_is file reads like the frames it was made of',
    'Frames concatenated to one file, without their lines of particle count '
    'and separated by blank lines, give the same trajectories as a directory '
    'with these frames numbered from 0: same positions, times, velocities '
    'and accelerations. Empty frames and frames of one particle are read as '
    'such, wherever they are; blanks in the separating lines and a newline '
    'at the end of the file make no difference.',
    ['inputs'], 'All films, minimal lengths, frame rates.',
    'The tests do not cover the single-file format.',
    ['io.py'], [('reading of concatenated frames', 'io.py '
        'SingleFileIterator')],
    'Films starting at 0, as a single file and as a directory.',
    'Differential: directory reading; plus the film.')

spec('C06', 'HDF particle tables hold the trajectories saved in them',
    'Saving trajectories to an HDF table and reading them, by the table '
    'reader or as a scene, returns every point of every trajectory with every '
    'property unchanged in value and shape, in order of time, under the same '
    'id; reading over an inclusive range returns the points in it. With '
    'trimming, the given number of points is missing from both ends of each '
    'trajectory, and those too short are absent; the recorded bounds of each '
    'trajectory and of positions are those of what was saved. A former file '
    'of that name is replaced.',
    ['inputs', 'configurations'],
    'All sets of trajectories with scalar or vector properties of integers or '
    'floats, trims and ranges.',
    'The tests save one fixed set and compare part of it.',
    ['io.py', 'scene.py'],
    [('column layout', 'io.py table_dtype'),
        ('saving', 'io.py save_particles_table'),
        ('reading', 'io.py trajectories_table')],
    'Sets of up to 6 trajectories of up to 9 points, 0-3 extra properties of '
    '5 kinds, any trim and range.',
    'Round trip against the generated rows, plus direct reading of the table.',
    ['tables in the file', 'trajectories_table', 'Scene'])

spec('C07', 'HDF files made of frames hold these frames',
    'Saving a sequence of frames to an HDF file and opening it as a scene '
    'returns the same particles in each frame, with all their properties, '
    'and nothing in frames that had none, including trajectories that vanish '
    'for some frames. The trajectories in it span from their first to last '
    'frame with the points in order, and saving the frames of any scene makes '
    'an equivalent scene.',
    ['inputs'], 'All lists of frames, also empty ones, frames apart from '
    'each other and particles that come and go.',
    'The tests copy one scene of constant make-up.',
    ['io.py', 'scene.py'], [('frame-wise saving', 'io.py save_frames_hdf'),
        ('trajectory bounds table', 'io.py save_frames_hdf')],
    'Lists of up to 7 frames of up to 6 ids.', 'The generated frames; copy '
    'of a scene differentially.')

spec('C08', 'Directories of NPZ files hold the trajectories saved in them',
    'Saving trajectories in a directory, with additional arrays for each '
    'trajectory and for the whole set, creates the directory as needed and '
    'reading it returns the same trajectories with all properties, and the '
    'additional arrays of each, whatever their names. Reading over an '
    'inclusive range of frames returns the part of each trajectory in the '
    'range, leaving out those with none.',
    ['inputs', 'configurations'], 'All sets, added arrays, names and ranges.',
    'The tests save one fixed list, without range.',
    ['io.py'], [('saving', 'io.py save_trajectories'),
        ('loading', 'io.py load_trajectories')],
    'Sets of up to 6 trajectories, up to 3 added arrays with names that may '
    'coincide with properties, ranges that may miss the data.',
    'Round trip against the generated data.')

spec('C09', 'Matlab trajectories are converted to SI units, point by point',
    'Reading a mat file of trajectory records returns each record as one '
    'trajectory under its id, with position, velocity and acceleration '
    'converted from mm to m and the recorded times, for any number of '
    'records and points, one included. The name of the record variable does '
    'not matter, nor that the file names a directory beside it.',
    ['inputs'], 'All sets of records, lengths and names of variables.',
    'The tests do not read mat files.',
    ['io.py'], [('conversion of records', 'io.py trajectories_mat')],
    'Record arrays written by scipy of up to 7 trajectories.',
    'The generated records divided by 1000.')

spec('C10', 'trajAcc files give their trajectories, whole and by frame',
    'Reading trajAcc files returns each block of rows as one trajectory '
    'with its position, velocity, acceleration and times, by the age of each '
    'row from the frame of its file, in order of frames, each under an id of its own; a range of '
    'frames includes both ends and selects by frame of start. Collecting '
    'the particles of one frame finds every particle position present in it '
    'once, also those of trajectories that began in earlier files, with '
    'velocity and age; for a path segment, those which are also in the next '
    'frame, with their rows there.',
    ['inputs', 'configurations'], 'All directories of trajAcc files, ranges '
    'and frames asked for.',
    'The tests do not read such files beyond collection from a few.',
    ['io.py'], [('reading', 'io.py trajectories_acc'),
        ('collection', 'io.py collect_particles')],
    'Directories of up to 8 trajectories over up to 12 frames, unusual '
    'templates, stray files.', 'The generated trajectories.')

spec('C11', 'One reading function gives the same for every storage format',
    'The general reading function returns for each format the trajectories '
    'stored there over the inclusive range asked for, of at least the minimal '
    'length, as a list or, on request, an iterator giving the same. The '
    'format is inferred from the name of the file or directory when it is not '
    'given, and paths may be relative or start with a tilde. The frame rate '
    'is used where velocities are derived.',
    ['inputs', 'configurations'], 'All formats, data, ranges, minimal '
    'lengths, ways to give the path.',
    'The tests read two of the formats with one set of arguments.',
    ['io.py'], [('dispatch by format', 'io.py trajectories'),
        ('inference', 'io.py infer_format')],
    'The same data in HDF, NPZ, mat; films in ptv_is and xuap; trajAcc '
    'directories; names with one format mark.',
    'The generated data, independent of format.')

spec('C12', 'Collecting the particles of a frame finds each once',
    'Collecting the particles of one frame from trajectories, in memory or '
    'in a mat file, gives position, velocity, time and id for each '
    'trajectory present in it, except that of those sharing a position only '
    'one is kept; a path segment is limited to those present in the next '
    'frame and has the rows of both. Reading the frame named in a '
    'configuration file gives it, and the one after it, from both databases '
    'likewise, with the particle and frame rate configured.',
    ['inputs', 'configurations'], 'All sets of trajectories and frames, with '
    'shared positions and particles that end in the frame.',
    'The tests collect from one data set.',
    ['io.py', 'trajectory.py'], [('collection', 'io.py '
        'collect_particles_generic'), ('frame of a configuration', 'io.py '
        'read_frame_data')],
    'Sets of up to 8 trajectories, some at shared positions; HDF databases.',
    'Search of the generated rows by brute force.')

spec('C13', 'All ways to read a scene show the same data',
    'Trajectories by iteration or by id, frames by iteration or by time, and '
    'columns collected from a scene all hold the same particles with the same '
    'values of all properties, which are those saved. Frames come for every '
    'frame number of the scene in order, also those without particles; the '
    'listed columns and their shapes are those of the data.',
    ['inputs'], 'All stored scenes, saved by trajectories or by frames.',
    'The tests look at a single scene, and each view of it alone.',
    ['scene.py'], [('queries by trajectory and frame', 'scene.py Scene'),
        ('collection', 'scene.py Scene.collect')],
    'Scenes of up to 7 trajectories with up to 3 extra properties.',
    'The generated rows.')

spec('C14', 'A scene always follows the frame range set last',
    'After any history of setting and clearing the frame range and of '
    'complete or abandoned readings, everything read from a scene is the '
    'part of the data with time from the first frame in force up to, not '
    'including, the last. An open end means the end of the data. Reading one '
    'frame by its number is not limited by the range.',
    ['histories', 'inputs'], 'All sequences of range changes and readings '
    'over all scenes.', 'The tests set one range once.',
    ['scene.py'], [('range in queries', 'scene.py Scene.set_frame_range'),
        ('bounds of trajectories', 'scene.py Scene.iter_trajectories')],
    'Histories of 3-9 operations of 9 kinds on random scenes and ranges.',
    'Model: the rows filtered by the range in force.')

spec('C15', 'Segments pair the particles that continue to the next frame',
    'Iterating over segments gives, for each frame but the last in range, '
    'that frame and the next one, both limited to the trajectories present in '
    'both, with all their properties (and in the same order, in files saved '
    'from trajectories). Frames where no particle continues give empty '
    'segments.',
    ['inputs'], 'All scenes, with trajectories starting and ending anywhere '
    'and gaps without particles.', 'The tests check segments of one film.',
    ['scene.py'], [('matching of frames', 'scene.py Scene.iter_segments')],
    'Scenes with staggered trajectories and gaps.',
    'The generated rows, intersected by frame.')

spec('C16', 'Conditional collection returns exactly the matching rows',
    'Collecting columns of a scene under conditions returns, row by row '
    'aligned between columns, the rows within the frame range that satisfy '
    'all conditions: for each column at least the lower limit and less than '
    'the upper, or the reverse if inverted, with the full precision of the '
    'limits. Collecting with no condition returns all rows in range.',
    ['inputs', 'configurations'], 'All data, limits (equal to stored values '
    'too), combinations of conditions and frame ranges.',
    'The tests use one condition with limits away from any value.',
    ['scene.py'], [('conditions as strings', 'scene.py gen_query_string'),
        ('collection', 'scene.py Scene.collect')],
    'Up to three conditions with limits taken from the data or between.',
    'Filter of the generated rows; limits evaluated at neighbouring floats.')

spec('C17', 'Scene metadata agrees with the stored particles',
    'The bounding box of a scene is the least and greatest coordinate of any '
    'stored particle, and the trajectory tags have each stored trajectory '
    'with its first and last frame, for files saved from trajectories '
    '(trimmed or not) or frames. The list of ids, of columns and of their '
    'shapes match the data, and so does the bounding box of bare tables '
    'that record none.',
    ['inputs'], 'All scenes, of positions of any sign and range.',
    'The tests check one scene.',
    ['scene.py', 'io.py'], [('recorded box', 'io.py save_particles_table, '
        'save_frames_hdf'), ('box', 'scene.py Scene.bounding_box'),
        ('tags', 'scene.py Scene.trajectory_tags')],
    'Scenes saved in three ways, shifted to be all positive or negative.',
    'Extremes of the generated rows.')

spec('C18', 'Coordinated iteration over tracers and particles stays in step',
    'Iterating a pair of databases by frames or segments gives at each step '
    'the same frame of both, each with all its own particles (for segments, '
    'those continuing to the next frame), over the range of the pair or the '
    'one given for this iteration. After any history of complete or abandoned '
    'iterations, the range of the pair and of each of its scenes is what it '
    'was, also if it is open or each has its own.',
    ['histories', 'inputs'], 'All pairs of databases and sequences of '
    'iterations.', 'The tests iterate once over one pair.',
    ['scene.py'], [('joint iteration', 'scene.py DualScene.iter_frames, '
        'iter_segments')],
    'Up to 6 iterations with random ranges, abandoned after 0-2 steps.',
    'Rows of both databases by frame.')

spec('C19', 'A configured dual scene and particle are as configured',
    'Reading the configuration of a pair of databases gives the files named, '
    'with special characters in names kept, the frame rate, the particle of '
    'the configured diameter and density, and the inclusive range of frames. '
    'The volume and mass of a particle are those of a sphere of its diameter '
    'and density.',
    ['configurations', 'inputs'], 'All configurations and spheres.',
    'The tests read one configuration.',
    ['scene.py', 'particle.py'], [('configuration', 'scene.py '
        'read_dual_scene'), ('sphere', 'particle.py Particle')],
    'Configurations with random names, ranges, numbers; random spheres.',
    'The generated values; formula of the sphere.')

spec('C20', 'Sets of particles keep the properties given to them',
    'A set of particles returns for each property, given at creation or '
    'added later, what was last set for it, wholly or by selection, and never '
    'what was set in another set; its schema, extended schema, dictionary '
    'form and length match its properties. Indexing a trajectory returns '
    'the selected points of all its columns.',
    ['histories', 'inputs'], 'All sequences of creating, setting and getting '
    'properties over sets, and all selectors.',
    'The tests set one property on one set.',
    ['trajectory.py'], [('property accessors', 'trajectory.py '
        'ParticleSet.create_property'), ('indexing', 'trajectory.py '
        'Trajectory.__getitem__')],
    'Histories over two sets with properties of several kinds.',
    'Model: a dictionary of arrays for each set.')

spec('C21', 'Snapshots hold the trajectories active in a frame',
    'The trajectories in a frame are those with a point at this time (for '
    'segments, also at the next), of those sharing a position there exactly '
    'one; the snapshot of given trajectories at a time has the values of '
    'all their properties then, under their ids, and is empty but well- '
    'formed if there are none. Of table rows with the same position exactly '
    'one is marked for keeping, and rows of a position of their own all '
    'are.',
    ['inputs'], 'All sets of trajectories, frames, and tables of positions.',
    'The tests take one snapshot each of two trajectories.',
    ['trajectory.py'], [('active trajectories', 'trajectory.py '
        'trajectories_in_frame'), ('snapshot', 'trajectory.py '
        'take_snapshot'), ('unique rows', 'trajectory.py mark_unique_rows')],
    'Sets of trajectories with shared positions, empty lists, float times.',
    'Search of the generated rows by brute force.')

spec('C22', 'A sequence iterates over the segments of its two databases',
    'Iterating over a sequence, wholly or over part of it, gives for each '
    'frame from the first up to, not including, the last of the range the '
    'particles and tracers of the trajectories present in it and in the '
    'next frame, as snapshots of both frames with all their properties. '
    'This holds after any history of iterations, complete, abandoned or '
    'interleaved, and follows the selection of trajectories set last, also '
    'if it is set in the course of an iteration.',
    ['histories', 'inputs'], 'All databases and histories of iteration and '
    'selection.', 'The tests do not iterate over a sequence in memory of '
    'known content.',
    ['sequence.py'], [('iteration', 'sequence.py Sequence.__iter__, '
        'iter_subrange, _read_segment'), ('cached trajectories',
        'sequence.py Sequence.particle_trajectories, tracer_trajectories')],
    'Histories of up to 6 iterations on databases in 3 formats, with '
    'selectors.', 'Rows of both databases by frame.')

spec('C23', 'Mapping a function over a sequence gathers results by trajectory',
    'Mapping a function over a sequence calls it once for each segment, in '
    'order, with extra arguments passed on, and returns for each trajectory '
    'of particles in the range its id with the rows of results in the order '
    'of time, one for each segment it takes part in. With history requested, '
    'the function gets at each step the results so far of the particles '
    'in the segment.',
    ['inputs', 'histories'], 'All databases, ranges and functions of a '
    'segment.', 'The tests do not map over staggered trajectories.',
    ['sequence.py'], [('gathering of results', 'sequence.py '
        'Sequence.map_trajectories')],
    'Databases with staggered trajectories, sub-ranges, functions with and '
    'without history.', 'Results recomputed trajectory by trajectory.')

spec('C24', 'A sequence is recreated from the configuration it saves',
    'Saving the configuration of a sequence and reading it gives a sequence '
    'of the same range, frame rate, particle, file names, formats, smoothing '
    'and minimal length, for any values and characters in names, unless '
    'overridden in reading, and other content of the configuration is kept. '
    'The recreated sequence reads the same trajectories.',
    ['configurations', 'inputs'], 'All parameters and names of a sequence.',
    'The tests save one sequence.',
    ['sequence.py'], [('saving', 'sequence.py Sequence.save_config'),
        ('reading', 'sequence.py read_sequence')],
    'Sequences of random parameters, names with percent signs and others.',
    'Round trip; data of original and recreated differentially.')

spec('C25', 'Interpolation uses the nearest tracers that are eligible',
    'The neighbours of each point are the nearest tracers, as many as asked '
    'for or fewer if there are fewer, only within the radius if one is '
    'given; tracers at the very place of the point and the tracer which is '
    'its companion are never among them. Selecting by radius alone gives '
    'all of those within it. Distances and relative positions given for '
    'neighbours are the actual ones, in both the selection by itself and a '
    'recorded scene, and the companion of one point has no effect on '
    'another.',
    ['inputs', 'configurations'], 'All positions of tracers and points, '
    'numbers, radii and companionships (none, one or several for a point).',
    'The tests use one arrangement on a line.',
    ['interpolation.py'], [('selection', 'interpolation.py select_neighbs'),
        ('KD-tree search', 'interpolation.py '
        'GeneralInterpolant._select_neighbs, _forego_laziness'),
        ('distances', 'interpolation.py GeneralInterpolant.neighb_dists')],
    'Scenes of up to 12 tracers and 5 points on grids with ties and '
    'coincidence, or in general position, with companions.',
    'Brute-force reference by sorting all distances.')

spec('C26', 'Inverse-distance interpolation gives the weighted mean',
    'The interpolated value at a point is the mean of the data at its '
    'neighbours weighted by inverse distance to the power given; it is the '
    'same for recorded and direct interpolation and for any order of the '
    'tracers. It is linear in the data, between their extremes, exact for '
    'constants, unchanged when everything is moved or scaled. Interpolating '
    'with a subset of the recorded neighbours gives the mean over these.',
    ['inputs', 'configurations'], 'All scenes, data of any number of '
    'components, parameters.', 'The tests have two tracers on a line.',
    ['interpolation.py'], [('weights', 'interpolation.py '
        'InverseDistanceWeighter.weights, _apply_weights'),
        ('interpolation', 'interpolation.py '
        'InverseDistanceWeighter._meth_interp, __call__')],
    'Scenes as in C25, 1-4 components, powers 0.5-5.',
    'Direct reference; metamorphic laws.')

spec('C27', 'The Jacobian is the derivative of the interpolated field',
    'The Jacobian reported for inverse-distance interpolation is for every '
    'point the matrix of derivatives of the interpolated components by the '
    'coordinates, at fixed neighbours, of the current data, whether or '
    'not the interpolated value is supplied. It agrees with differences '
    'of values interpolated at points slightly apart, and excluded or missing '
    'neighbours have no part in it. That of the other methods is the change '
    'of the values interpolated at points a step apart on each axis, over '
    'the step that was given, or the default.',
    ['inputs', 'configurations'], 'All scenes, data, parameters and '
    'companionships.', 'The tests compare for two points of one scene.',
    ['interpolation.py'], [('analytic Jacobian', 'interpolation.py '
        'InverseDistanceWeighter.eulerian_jacobian'), ('numerical Jacobian',
        'interpolation.py GeneralInterpolant.eulerian_jacobian')],
    'Scenes as in C26 and C29.', 'Quotient rule in a reference; finite differences.')

spec('C28', 'An interpolation scene reflects its current state only',
    'After any sequence of replacing tracers, points, companionship or data, '
    'removing points, and interpolating on the scene, off it or of a subset, '
    'the results, distances, relative positions, neighbours and derivatives '
    'are those of a new interpolant given the current state. Nothing '
    'remembered from former states shows.',
    ['histories'], 'All sequences of operations on the scene of an '
    'interpolant.', 'The tests set one scene and once remove points.',
    ['interpolation.py'], [('caches of neighbours and data',
        'interpolation.py GeneralInterpolant._forego_laziness, '
        '_ensure_matched_data, _drop_neighbours_cache'), ('removal',
        'interpolation.py GeneralInterpolant.trim_points'),
        ('cached weights', 'interpolation.py InverseDistanceWeighter')],
    'Histories of up to 8 operations of 11 kinds, also on scenes of no '
    'tracers; all methods.',
    'Model: the reference interpolation of the current state.')

spec('C29', 'RBF interpolation solves the Gaussian system of the neighbours',
    'Interpolating by radial basis functions gives the value at each point of '
    'the combination of Gaussians, of the width given or the default, around '
    'its eligible neighbours which reproduces the data at these neighbours; '
    'each data component is treated alike and by itself. The result is the '
    'same from a recorded scene and a direct call.',
    ['inputs', 'configurations'], 'All scenes of tracers apart from each '
    'other, widths, data.', 'The tests compare one scene of few points.',
    ['interpolation.py'], [('rbf', 'interpolation.py rbf_interp')],
    'Scenes of tracers at least some distance apart, of two scales.',
    'Linear system solved directly by the reference, compared within its condition number.')

spec('C30', 'Correlation interpolation weighs tracers by their correlation',
    'Interpolating with correlation functions read from a file gives at '
    'each point the mean of the data of its neighbours weighted by the '
    'correlation of the bin that the distance of each falls in, common to '
    'all components or separate for each. The result is the same from a '
    'recorded scene and from a direct call.',
    ['inputs', 'configurations'], 'All scenes, histograms and bins.',
    'The tests do not cover this method.',
    ['interpolation.py'], [('corrfun', 'interpolation.py corrfun_interp')],
    'Scenes as in C25, 1-6 bins.', 'Reference by definition.')

spec('C31', 'Calls off the recorded scene give that scene and keep the record',
    'An interpolant called with other tracers, points and data gives what '
    'recording them and interpolating would, with companionship as given '
    '(where a radius is set, direct calls of rbf and corrfun use all the '
    'tracers in it, a recorded scene the nearest num_neighbs of them), '
    'and its own recorded scene is not disturbed; with no tracers there is '
    'zero for each point. The numerical Jacobian of a recorded scene is '
    'the difference of interpolations at points moved by the step in '
    'each direction, with the same companions left out.',
    ['inputs', 'histories'], 'All pairs of scenes, methods and steps.',
    'The tests call an interpolant only without a recorded scene.',
    ['interpolation.py'], [('direct call', 'interpolation.py '
        'GeneralInterpolant.__call__, InverseDistanceWeighter.__call__'),
        ('numerical Jacobian', 'interpolation.py '
        'GeneralInterpolant.eulerian_jacobian')],
    'Two scenes for each case, all methods.',
    'Differential: an interpolant with the other scene recorded; reference.')

spec('C32', 'A saved interpolant configuration recreates the interpolant',
    'Saving the configuration of an interpolant and reading it gives one '
    'that interpolates the same and has the same neighbourhood, for every '
    'method and choice of arguments, also over a configuration that described '
    'another interpolant. Values left out of a configuration have their '
    'defaults, and other sections are kept. Methods there are not, and one '
    'that lacks the file it needs, are refused.',
    ['configurations'], 'All methods and arguments given or left out.',
    'The tests read one configuration and save none.',
    ['interpolation.py'], [('saving', 'interpolation.py '
        'GeneralInterpolant.save_config'), ('reading', 'interpolation.py '
        'read_interpolant')],
    'All methods, arguments, former contents.',
    'Round trip: recreated and original interpolate the same scene.')

spec('C33', 'Analysis files hold one row per particle and segment',
    'Analysing a dual scene writes a table with exactly one row for each '
    'particle in each segment of the frame range, tagged by its id and time, '
    'with the results of every analyser in the columns it describes, of '
    'their type and length. The paths of the particles file and the '
    'configuration are recorded with it, the range of the scene is left as '
    'it was, and a former file of that name is replaced.',
    ['inputs', 'configurations'], 'All dual scenes, ranges and combinations '
    'of analysers.', 'The tests analyse one scene with one analyser.',
    ['analysis.py', 'scene.py'], [('writing', 'analysis.py analysis')],
    'Dual scenes with 0-2 analysers of several column types, ranges.',
    'The generated rows by segment; recomputed analyses.')

spec('C34', 'Fluid velocity at particles excludes their own tracers',
    'The analysis of fluid velocity gives for each particle of a segment the '
    'interpolated velocity of the tracers in the frame, leaving out the '
    'tracer recorded as its companion when it is in the frame, and its '
    'relative velocity, which is its own less that of the fluid. Companions '
    'are found by id, and those absent are marked as such.',
    ['inputs', 'configurations'], 'All dual scenes and companions, in the '
    'frame, not in it, or non-existent.', 'The tests use one scene without '
    'companions in it.',
    ['analysis.py'], [('companions', 'analysis.py companion_indices'),
        ('analysis', 'analysis.py FluidVelocitiesAnalyser')],
    'Dual scenes with random companions.', 'Reference interpolation.')

spec('C35', 'An analysed scene joins particles with their analysis',
    'Columns of particles and of their analysis collected together are '
    'aligned by id and time over the analysed segments, under any conditions '
    'on either, and return all rows that satisfy them, only these, with '
    'full values. Trajectories, by id or iteration, carry the particle '
    'properties and the analysed ones at the analysed times; listed columns '
    'and shapes are of both.',
    ['inputs', 'configurations'], 'All analysed scenes and conditions.',
    'The tests collect once under one condition.',
    ['an_scene.py', 'scene.py'], [('joint collection', 'an_scene.py '
        'AnalysedScene.collect'), ('trajectories', 'an_scene.py '
        'AnalysedScene.trajectory_by_id, iter_trajectories')],
    'Dual scenes, with gaps, analysed by two analysers, over the range of '
    'the scene or another; up to 3 conditions.',
    'Rows of particles joined with recomputed analyses.')

spec('C36', 'The analysis program does as its arguments say',
    'Running the analysis program on the configuration of a dual scene '
    'writes to the file asked for the fluid and relative velocity of each '
    'particle, interpolated by the method, number of neighbours and '
    'parameter given on the command line or their defaults, over the '
    'configured frames.',
    ['configurations', 'inputs'], 'All dual scenes and arguments.',
    'The tests do not run the program.',
    ['scripts/analyse_fhdf.py', 'analysis.py'], [('program',
        'scripts/analyse_fhdf.py')],
    'Dual scenes and any of the arguments.', 'Reference interpolation.')

spec('C37', 'Smoothing is the windowed least-squares polynomial fit',
    'Savitzky-Golay smoothing returns, in order, each trajectory at least '
    'as long as the window, with position, velocity and acceleration '
    'replaced by the value and derivatives (in units of the frame rate) of '
    'the polynomial of the given order fitted to the positions in the '
    'window around each point, ends being padded by reflection; polynomial '
    'paths are kept away from the ends. Velocity and acceleration predicted '
    'by the fit of the previous point are added, ids, times and other '
    'properties kept, and the original trajectories left alone. Even '
    'windows, or too small for the order, are refused.',
    ['inputs', 'configurations'], 'All trajectories, windows, orders, frame '
    'rates.', 'The tests smooth one trajectory.',
    ['smoothing.py'], [('filter', 'smoothing.py savitzky_golay')],
    'Lists of trajectories, windows 3-17, orders 0-5.',
    'Least-squares fit for each window by numpy.')

spec('C38', 'Pairing finds the nearest simultaneous trajectory',
    'Pairing trajectory points with another set gives for each request, in '
    'the order of requests, which may repeat, the id of the nearest of the '
    'secondary trajectories that are present at its time and continue to '
    'the next frame, and the index of that time in it, or a negative index '
    'if there is none. The two sets may have different properties and '
    'overlap in time in any way.',
    ['inputs'], 'All sets of trajectories and lists of requests.',
    'The tests pair one fixed set.',
    ['pairs.py'], [('pairing', 'pairs.py particle_pairs')],
    'Up to 5 primary and 7 secondary trajectories, up to 8 requests.',
    'Brute-force search.')

spec('C39', 'Graphs of distributions represent the samples',
    'The bins of a probability density, spaced evenly or logarithmically, '
    'contain every sample (every positive one, if logarithmic), and each '
    'density is the share of samples in its bin over the width of the bin, '
    'so that they integrate to one. Graphs draw these values at the starts '
    'of bins with the marker and on the scales asked for, and plots of '
    'vectors draw each component against the independent variable with its '
    'label, limits, ticks and arrows.',
    ['inputs', 'configurations'], 'All samples, numbers of bins, scales.',
    'The tests do not cover graphics.',
    ['graphics.py'], [('bins', 'graphics.py pdf_bins'), ('drawing',
        'graphics.py generalized_histogram_disp, pdf_graph, plot_vectors')],
    '2-40 samples, 1-12 bins, linear and logarithmic.',
    'Counting by definition; the data of drawn artists.')

spec('C40', 'Formatting docstrings keeps their text',
    'Converting a docstring for the documentation turns titled sections and '
    'argument definitions into their reStructuredText form, in place, and '
    'keeps every other line, all text and the order of both. Further lines '
    'of a definition stay with it, and a paragraph after the list does not '
    'become part of it.',
    ['inputs'], 'All docstrings of titles, definitions and text.',
    'The tests do not cover it.',
    ['format_docstrings.py'], [('conversion', 'format_docstrings.py '
        'parse_docstring')],
    'Docstrings of up to 14 lines.', 'Reference conversion line by line, and '
    'invariants.')

spec('C41', 'A spline-smoothed trajectory stays within its error bound',
    'Smoothing a trajectory by a spline keeps its id, times and length, and '
    'moves points no further than the error bound allows: the squared '
    'deviations sum up to the square of bound times number of points, or '
    'less if a polynomial is closer. With no error points stay where they '
    'are. Velocity and acceleration are tangent to and derivatives of the '
    'same curve, which is turned, moved, mirrored and scaled with the '
    'points, and does not depend on other properties. Too short a '
    'trajectory is returned itself; the original is not changed.',
    ['inputs', 'configurations'], 'All trajectories, orders and bounds.',
    'The tests do not cover it.',
    ['trajectory.py'], [('spline', 'trajectory.py Trajectory.smoothed')],
    'Trajectories of 1-25 points, random, steady or on a grid.',
    'Interpolating spline or least-squares polynomial by numpy/scipy, '
    'the bound, identities of cubic pieces, metamorphic laws.')

spec('C42', 'Readers in use at the same time do not disturb each other',
    'Any number of iterators by frames, segments or trajectories, on one '
    'scene or several open on the same file, advanced in any order, '
    'abandoned, and mixed with single queries, collections, the opening and '
    'closing of other scenes and ranges set on them, each give exactly what '
    'they would by themselves. So do iterations over a dual scene, with '
    'ranges of their own or without, over an analysed scene, and over '
    'trajectories of frame files.',
    ['histories', 'schedules'], 'All interleavings of readers.',
    'The tests run one iteration at a time.',
    ['scene.py', 'an_scene.py', 'io.py'], [('iterators', 'scene.py '
        'Scene.iter_frames, iter_segments, iter_trajectories'),
        ('joint iteration', 'scene.py DualScene.iter_frames, iter_segments'),
        ('analysed', 'an_scene.py AnalysedScene.iter_trajectories'),
        ('frame files', 'io.py iter_trajectories_ptvis, FramesIterator')],
    'Up to 26 operations on up to 7 iterators.',
    'Generated rows, for each iterator by itself.')

spec('C43', 'What is read or given as an argument stays as it is',
    'No way of reading a database changes its files, and reading again gives '
    'the same, whatever is done with the arrays that were returned. No '
    'function that saves, selects, pairs, smooths, interpolates, collects or '
    'draws changes the arrays, trajectories, lists and dictionaries given to '
    'it, and the same call again has the same result.',
    ['inputs', 'histories'], 'All data, formats and functions.',
    'The tests look at results only.',
    ['io.py', 'scene.py', 'interpolation.py', 'trajectory.py',
        'smoothing.py', 'pairs.py', 'sequence.py', 'analysis.py',
        'graphics.py'], [('reading', 'io.py, scene.py, sequence.py'),
        ('computing', 'interpolation.py, smoothing.py, pairs.py')],
    'Databases of seven kinds; arguments of some 30 functions.',
    'Invariant: digests of files and bytes of arguments before and after; '
    'results of repeated calls.')

spec('C44', 'The way from linked frames to an analysis keeps the data',
    'Frames of tracers and particles read, possibly smoothed, stored as '
    'databases by trajectories, by frames or by way of NPZ, and analysed '
    'together over a range give for each particle that continues to the next '
    'frame one row, with the position and velocity that follow from its '
    'frames, the velocity of the fluid interpolated from the tracers that '
    'continue, and the difference. The trajectories of the analysis are '
    'these of the frames in the range.',
    ['inputs', 'configurations'], 'All films of both kinds and ways.',
    'The tests cover each step by itself, on samples.',
    ['io.py', 'scene.py', 'analysis.py', 'an_scene.py', 'trajectory.py',
        'smoothing.py', 'interpolation.py'], [('reading', 'io.py '
        'iter_trajectories_ptvis'), ('storing', 'io.py '
        'save_particles_table, save_frames_hdf'), ('analysis', 'analysis.py '
        'analysis')],
    'Two films of 4-10 frames, several ways of storing, ranges, methods.',
    'Computed from the generated films by brute force.')

spec('C45', 'After a failure the same call with good input succeeds',
    'A failure of what the user supplies (an analyser, a function mapped over '
    'a sequence, an iterator of trajectories or frames, a file that is '
    'missing or of another kind) reaches the caller, and leaves no trace: '
    'the same call with good input, to the same path and with the same '
    'objects, succeeds and gives the result it would have without the '
    'failure. Sources and other scenes in use are not affected, and an '
    'analysis never overwrites the particles it reads.',
    ['fault_sequences', 'histories'], 'All points of failure.',
    'The tests supply no failing input.',
    ['io.py', 'analysis.py', 'sequence.py', 'scene.py', 'an_scene.py'],
    [('saving', 'io.py save_particles_table, save_frames_hdf, '
        'save_trajectories'), ('analysing', 'analysis.py analysis'),
        ('mapping', 'sequence.py Sequence.map_trajectories')],
    'One or two failures at any item, frame or segment, then a good call.',
    'Generated rows; results by brute force.')

spec('C46', 'Databases of many rows behave as small ones do',
    'What is promised of scenes, sequences, films, analyses, pairs and '
    'interpolation (saving and reading give the same rows by trajectories, '
    'frames, segments and columns; ranges and conditions select exactly; '
    'results are these of each particle by itself) holds just the same for '
    'databases of thousands of rows, hundreds of trajectories and dozens of '
    'frames, for frames of hundreds of particles, and among hundreds of '
    'tracers.',
    ['inputs'], 'All sizes of data.',
    'The tests have small samples and compare but a few values of them.',
    ['io.py', 'scene.py', 'an_scene.py', 'analysis.py', 'sequence.py',
        'interpolation.py', 'pairs.py'],
    [('tables', 'io.py save_particles_table, save_frames_hdf'),
        ('queries', 'scene.py Scene'), ('neighbours', 'interpolation.py '
        'select_neighbs, Interpolant'), ('films', 'io.py '
        'iter_trajectories_ptvis')],
    'Cases made from a seed: up to 300 trajectories, 10000 rows, 400 tracers.',
    'The models of C01, C04-C07, C13-C16, C18, C22, C23, C25-C27, C33-C35, '
    'C38.')

spec('C47', 'Properties of any numeric type are stored as they are',
    'Scalar and vector properties of a trajectory or frame may be integers '
    'of any size, with a sign or not, floats of 2, 4 or 8 bytes, complex or '
    'boolean, and have any value, infinite, NaN and negative zero among '
    'them. Each way of saving and reading (tables by trajectories and by '
    'frames, their iterators and columns, NPZ files, snapshots, results of '
    'an analysis) gives back the same type (but for the order of bytes) and '
    'the same values. Where trajectories have a property in different types, '
    'a snapshot of them has their values as they are, and a table those '
    'which the type of the first can hold.',
    ['inputs'], 'All types, shapes and values.',
    'The tests have properties of floats of 8 bytes and ordinary values.',
    ['io.py', 'scene.py', 'trajectory.py', 'analysis.py', 'an_scene.py'],
    [('row types', 'io.py table_dtype, trajectory.py ParticleSet.ext_schema'),
        ('filling', 'io.py fill_particles_file, fill_frames_file, analysis.py'
        ' fill_analysis'), ('snapshots', 'trajectory.py take_snapshot')],
    '1-3 properties of 17 types, values drawn as bytes; times and positions '
    'of several types.', 'The generated arrays, bit by bit but for NaNs.')

spec('C48', 'Files may have any name',
    'Files are found and read by the path given, absolute or relative to '
    'the current directory, whatever characters the names of the file and '
    'of its directories have (but for the mark of the frame number, %d, in '
    'a directory): spaces, percent signs, characters of patterns, other '
    'letters, and names which are marks of a format in directories. The '
    'format is inferred by the name of the file. This goes for tables, NPZ '
    'directories, directories and templates of frame files, old HDF files, '
    'analyses, and paths given in configuration files (with percent signs '
    'doubled, as such files need). Files beside them with similar names, '
    'which are not of the set, are not read.',
    ['inputs'], 'All names of files and directories.',
    'The tests use a few files of plain names.',
    ['io.py', 'scene.py', 'sequence.py', 'analysis.py', 'an_scene.py',
        'interpolation.py'],
    [('format of a name', 'io.py infer_format, trajectories'),
        ('names of frames', 'scene.py, sequence.py, io.py FramesIterator'),
        ('paths in configurations', 'scene.py read_dual_scene, sequence.py '
        'read_sequence, interpolation.py read_interpolant')],
    'Directories of 1-2 levels with names of up to 6 characters of a wide '
    'alphabet and marks of formats, absolute and relative.',
    'The generated particles, as read from plain names by the other checks.')

spec('C49', 'Iterating and writing do not hold the data that has passed',
    'The iterators of a scene, a dual scene and an analysed scene, the '
    'iterating forms of the reading functions, and the iterator over linked '
    'frame files do not keep the trajectories and frames they have given, '
    'and the functions that save tables, NPZ files and analyses take their '
    'input one by one and do not keep it. So files that are larger than '
    'memory can be used. The iterator over frame files gives the '
    'trajectories which end well before a frame that cannot be read, then '
    'raises an error.',
    ['inputs'], 'All scenes, films and iterators.',
    'The tests use small data and do not look at what is held.',
    ['scene.py', 'io.py', 'analysis.py', 'an_scene.py'],
    [('iterators', 'scene.py iter_trajectories, iter_frames, iter_segments'),
        ('frame buffer', 'io.py iter_trajectories_ptvis'),
        ('writing', 'io.py save_particles_table, save_frames_hdf, '
        'save_trajectories')],
    'Databases of 8-24 trajectories and films of 10-40, in 10-30 frames.',
    'Weak references to all that has been passed: no more than 8 alive at '
    'any time.')

spec('C50', 'The layout of text files and the order of directories do not matter',
    'Frame files of each text format (ptv_is, xuap, concatenated, trajAcc) '
    'may have their columns separated and aligned by blanks and tabs, lines '
    'ended as in other systems, empty lines at the end or no end of the last '
    'line, and numbers in any notation. Configuration files (of scenes, '
    'sequences, interpolants) may have sections and values in any order, '
    'comments, keys of capital letters, and any notation of numbers and '
    'truth values. Files in a directory may be listed in any order by the '
    'system. What is read is the same.',
    ['inputs', 'configurations'], 'All layouts and orders.',
    'The tests read files of the layout of one program.',
    ['io.py', 'scene.py', 'sequence.py', 'interpolation.py'],
    [('frame readers', 'io.py FramesIterator, SingleFileIterator, '
        'trajectories_acc, load_trajectories'),
        ('configurations', 'scene.py read_dual_scene, sequence.py '
        'read_sequence, interpolation.py read_interpolant')],
    'Films rewritten in random styles, INI files of random styles, and '
    'listings of directories put in a random order.',
    'The generated particles and values.')

spec('C51', 'Interpolation at a point depends on the scene around it only',
    'The value interpolated at a point, by any of the methods, recorded or '
    'by direct call, is the same whether the point is asked for alone, '
    'twice, in another order or among others; it does not depend on the '
    'order of tracers, on tracers far beyond those that count, or on the '
    'place, rotation and reflection of the frame of reference. It is linear '
    'in the data. The distances of neighbours do not depend on these either, '
    'and the Jacobian of inverse distances turns with the frame.',
    ['inputs'], 'All scenes, methods, sets of points and transformations.',
    'The tests interpolate once on a few scenes.',
    ['interpolation.py'], [('choice of neighbours', 'interpolation.py '
        'select_neighbs, GeneralInterpolant._select_neighbs'),
        ('weights', 'interpolation.py rbf_interp, corrfun_interp, '
        'InverseDistanceWeighter')],
    'Scenes as in C25 and C29 of up to 12 tracers and 7 points, random '
    'orders, additional points and tracers, rotations, moves and mixtures.',
    'Metamorphic relations, where values do not depend on tie breaking.')

spec('C52', 'Data is the same after conversions between formats',
    'Trajectories read by any of the readers (of ptv_is, xuap, mat, trajAcc) '
    'or made in memory, then saved as a table by trajectories, as a table by '
    'frames (of a scene, or snapshots), or as a directory of NPZ files, read '
    'again by any of the functions that can read the format, and so on any '
    'number of times, are at the end those of the beginning, with their ids, '
    'times and all properties; or the part of them in the ranges that were '
    'read on the way.',
    ['inputs', 'programs'], 'All data and chains of conversions.',
    'The tests save and read each format by itself, on a sample.',
    ['io.py', 'scene.py', 'trajectory.py'],
    [('writers', 'io.py save_particles_table, save_frames_hdf, '
        'save_trajectories'), ('readers', 'io.py trajectories, '
        'trajectories_table, load_trajectories; scene.py Scene')],
    'Data of 5 sources and chains of 1-4 conversions, of 5 writers and 7 '
    'readers.',
    'Round trip: the arrays first read, cut to the ranges.')

spec('C53', 'Measured data is read, stored and analysed as recorded',
    'For any range of frames of a real measurement, such as the films of '
    'particles (xuap) and tracers (ptv_is) and the table of particles in the '
    'data directory, with hundreds of short trajectories at a time and links '
    'that lead nowhere: the trajectories read are those that the links in the '
    'text describe; a scene of the table has the same rows, '
    'trajectories, frames and segments as the film from which it was made; '
    'and an analysis of a dual scene of both gives each particle the fluid '
    'velocity that its nearest tracers in the text imply.',
    ['inputs'], 'All ranges of frames, minimal lengths and ways of reading.',
    'The tests read the same films but compare counts or a few values.',
    ['io.py', 'scene.py', 'analysis.py', 'an_scene.py', 'interpolation.py'],
    [('reader of films', 'io.py iter_trajectories_ptvis'),
        ('scene', 'scene.py Scene, DualScene'),
        ('analysis', 'analysis.py analysis')],
    'Ranges of 2-40 of the 200 measured frames.',
    'The text of the frames, parsed and linked in plain Python; brute-force '
    'interpolation.')

spec('C54', 'The layout of arrays in memory does not matter',
    'Arrays of the same values give the same results, however they lie in '
    'memory: by columns, as every second row or part of a larger array, '
    'backwards, read-only, as a field of a table, mapped from a file, in the '
    'other byte order, as a subclass of array; and, where positions are whole '
    'numbers, if they are integers. This holds for tracers, points, data, '
    'companions and selections given to an interpolant, for the properties '
    'of trajectories that are stored, smoothed, paired, put in snapshots and '
    'selected from, and for the results of analysers.',
    ['inputs'], 'All scenes, sets of trajectories, analyses, and layouts.',
    'The tests have arrays of one layout.',
    ['interpolation.py', 'trajectory.py', 'io.py', 'smoothing.py', 'pairs.py',
        'analysis.py'],
    [('interpolation', 'interpolation.py Interpolant'),
        ('trajectories', 'trajectory.py, io.py, smoothing.py, pairs.py'),
        ('analysis', 'analysis.py analysis')],
    'Scenes as in C51, sets of up to 5 trajectories, dual scenes as in C33; '
    'nine layouts, integers.',
    'Differential: the same on plain arrays, where values do not depend on '
    'tie breaking.')

spec('C55', 'Numbers may be NumPy scalars, as data has them',
    'Frame numbers, ranges, trajectory ids, limits of conditions, lengths, '
    'windows and numbers of neighbours may be given as NumPy integers of 32 '
    'or 64 bits (or as arrays without dimensions) instead of Python ones, and '
    'frame rates, sizes, densities, radii and parameters as floats, NumPy '
    'floats, or integers of 16, 32 or 64 bits, all of the same value. What is '
    'read, selected, mapped, smoothed, analysed, interpolated and written in '
    'configurations is the same.',
    ['inputs'], 'All databases, scenes, calls, and types.',
    'The tests have Python numbers only.',
    ['scene.py', 'sequence.py', 'io.py', 'trajectory.py', 'smoothing.py',
        'analysis.py', 'interpolation.py'],
    [('ranges', 'scene.py Scene.set_frame_range, sequence.py iter_subrange'),
        ('frame rates', 'smoothing.py savitzky_golay, io.py '
        'iter_trajectories_ptvis'), ('configuration', 'sequence.py '
        'save_config, interpolation.py save_config')],
    'Sets of up to 5 trajectories, dual scenes as in C33, fields as in C26; '
    'four types of integers, eight of quantities.',
    'Differential: the same with Python numbers.')

spec('C56', 'What is read is what the files hold at the time',
    'Readers of particles, trajectories, scenes, sequences, configurations '
    'and correlations, and analyses of scenes, give what the files hold when '
    'they are opened, whatever was read or written before in the same '
    'process under the same names. Existing HDF, MATLAB and configuration '
    'files are replaced by those that are written, entirely. Saving '
    'trajectories in an NPZ directory that has some replaces those of the '
    'same ids and keeps the others.',
    ['histories'], 'All files that are replaced by others of the same names, '
    'and the readers and writers of each format.',
    'The tests read each file once.',
    ['io.py', 'scene.py', 'sequence.py', 'interpolation.py', 'analysis.py'],
    [('readers', 'io.py trajectories, load_trajectories'),
        ('writers', 'io.py save_particles_table, save_trajectories'),
        ('configuration', 'scene.py read_dual_scene, sequence.py '
        'read_sequence, interpolation.py read_interpolant, corrfun_interp')],
    'Histories of two or three cases of the checks of 27 other properties, '
    'in one directory, the files removed or not between them.',
    'The oracles of those checks, for each case in turn.')

spec('C57', 'Properties of particles may have any name',
    'Trajectories, snapshots and results of analysers may have properties of '
    'any name that is a Python identifier, does not begin with an underscore '
    'and is not the name of a method, one '
    'of the common properties, or a function or word of PyTables conditions, '
    'e.g. t, id, first, key, x or n. Ids, times and all properties are then '
    'what they were given, in objects and their snapshots, in databases '
    'written and read by trajectories, frames, segments, columns and ranges, '
    'in conditions, in analysed scenes and in sequences.',
    ['inputs'], 'All names, and everything that keeps or finds properties by '
    'name.',
    'The tests have a property or two, of the usual names.',
    ['trajectory.py', 'io.py', 'scene.py', 'an_scene.py', 'sequence.py'],
    [('attributes', 'trajectory.py ParticleSet.create_property, '
        'Trajectory.trajid, ParticleSnapshot.time'), ('conditions',
        'scene.py Scene.iter_trajectories, iter_frames, io.py '
        'table_trajectories, an_scene.py AnalysedScene')],
    'Up to 4 properties and 3 results, of 50 names of usual variables and '
    'attributes, or up to 6 letters and digits.',
    'The generated rows.')
