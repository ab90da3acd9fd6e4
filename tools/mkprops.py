"""Writes properties.jsonl (the property texts live here)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})


U, S, PR, DM = 'falco/util.py', 'falco/setup.py', 'falco/prop.py', 'falco/dm.py'

p('P01', 'Centred padding and cropping keep every pixel at its offset from the centre',
  'Padding or cropping a 2-D array to any positive size keeps the pixel at index floor(size/2) of each axis at index floor(size/2) of the output, every other retained pixel at the same offset from it, and puts the fill value everywhere else. '
  'Chaining pads and crops through sizes that lose no retained pixel equals doing it in one step, the result never shares memory with the input, and non-positive or non-integer sizes are rejected. '
  'Padding to an even square uses the smallest even side that holds both axes.',
  ['inputs'], 'all array sizes, all output sizes (even/odd in any combination), all values and fill values',
  'The unit tests try a few size pairs; the even/odd rule and chaining must hold for all sizes.',
  [U], [('centred pad/crop', 'falco/util.py:pad_crop'), ('even square', 'falco/util.py:pad_to_even_square')],
  ['falco.util.pad_crop', 'falco.util.pad_to_even_square'])

p('P02', 'Off-centre cropping returns the requested window with zeros outside',
  'Cropping a window around any pixel gives an output of exactly the requested size whose pixel floor(size/2) is the requested pixel; pixels of the window outside the input are zero, including windows partly or wholly outside. '
  'Fractional centres mean the nearest pixel, and cropping around the array centre equals the centred crop.',
  ['inputs'], 'all array sizes, window sizes and window centres (negative and beyond the array included)',
  'Tests use a handful of windows; edges on each side combine with even/odd sizes in ways only a proof over all sizes covers.',
  [U], [('off-centre crop', 'falco/util.py:offcenter_crop')], ['falco.util.offcenter_crop'])

p('P03', 'Coordinate axes and grids follow the stated centring convention',
  'An axis of N samples is uniformly spaced with its zero at sample floor(N/2), shifted by exactly half a sample only for even N with interpixel centring (then it is antisymmetric). '
  'Radial and azimuthal grids take columns as x and rows as y with the given stretch factors, polar coordinates convert back to the Cartesian ones, and rounding up to an even or odd integer gives the smallest such integer not below the input.',
  ['inputs'], 'all sample counts, spacings, centrings, stretch factors and coordinates',
  'Tests check a few lengths; an off-by-half-sample error at some parity shifts every model plane.',
  [U], [('axis', 'falco/util.py:create_axis'), ('grids', 'falco/util.py:radial_grid, azimuthal_grid, cart2pol'),
        ('parity', 'falco/util.py:ceil_even, ceil_odd')], ['falco.util.create_axis', 'falco.util.radial_grid'])

p('P04', 'Bin-downsampling returns exact block means and rejects indivisible sizes',
  'Downsampling by an integer factor divides each side by the factor, and each output pixel is the arithmetic mean of its block of input pixels, so the mean level is kept. '
  'Arrays whose sides are not multiples of the factor are rejected.',
  ['inputs'], 'all array sizes and factors, all values', 'One test uses a single pupil file and one factor.',
  [U], [('binning', 'falco/util.py:bin_downsample')], ['falco.util.bin_downsample'])

p('P05', 'Optical relays rotate the field by 180 degrees and twice is the identity',
  'Relaying a field an odd number of times rotates it by 180 degrees about the centre pixel (or, with interpixel centring, about the array midpoint); an even number returns the same field, and relays add up. '
  'Pixel values are only moved, so total power is unchanged and the input is not modified.',
  ['inputs'], 'all array sizes, relay counts (also negative) and centrings',
  'Existing tests only run relays inside full models at fixed sizes.',
  [PR], [('relay', 'falco/prop.py:relay')], ['falco.prop.relay'])

p('P06', 'Plane-to-plane propagation is an invertible, energy-preserving filter',
  'Angular-spectrum propagation multiplies each spatial frequency by a unit-modulus phase that depends on the squared frequency, the wavelength and the signed distance; distance zero returns the field unchanged and opposite distances are inverse to each other. '
  'Non-square fields are rejected rather than propagated with a wrong sampling, and the unitary centred Fourier transforms are inverse to each other for every array size.',
  ['inputs'], 'all field sizes and values, all wavelengths, widths and signed distances',
  'Tests propagate through a few fixed models; sign or frequency-grid mistakes can hide for the default distances (often zero).',
  [PR, U], [('angular spectrum', 'falco/prop.py:ptp'), ('kernel', 'falco/util.py:angular_spectrum_transfer_function'),
            ('centred FFTs', 'falco/prop.py:fft2d, ifft2d')], ['falco.prop.ptp'])

p('P07', 'Matrix Fourier transforms between pupil and focus match the stated integral',
  'Each transform between a pupil and a focal plane equals the sampled Fourier integral with its own sample spacing along each axis, rows conjugate to rows and columns to columns, scaled by the square root of the sample areas over wavelength times focal length. '
  'It is linear in the field, both planes use the same centring convention, and the vortex-mask propagation used for gradients is the exact adjoint of the forward one.',
  ['inputs'], 'all field shapes (also rectangular), spacings (also different along the two axes), wavelengths, focal lengths, centrings',
  'The unit tests only use equal spacings and square arrays, so mixing up the axes cannot be seen.',
  [PR], [('pupil to focus', 'falco/prop.py:mft_p2f'), ('focus to pupil', 'falco/prop.py:mft_f2p'),
         ('vortex', 'falco/prop.py:mft_p2v2p')], ['falco.prop.mft_p2f', 'falco.prop.mft_f2p', 'falco.prop.mft_p2v2p'])

p('P09', 'Input checks accept exactly the documented class of values',
  'Each validator returns its argument unchanged when it belongs to the documented class (real, positive, non-negative or integer scalar; real array; array of the given dimension; square array; boolean; string; dictionary; known centring) and raises the requested exception otherwise, with the boundary value zero treated as documented.',
  ['inputs'], 'all Python and numpy scalars and arrays of the classes above, including zero, booleans and complex values',
  'Tests sample a few accepted and rejected values per validator.',
  ['falco/check.py'], [('validators', 'falco/check.py')], ['falco.check.*'])

p('P10', 'Bandpass discretisation: wavelengths, weights and centre indices are consistent',
  'The sub-bands are centred on the central wavelength, evenly spaced over the fractional bandwidth, and their weights sum to one; the sampled wavelengths within the sub-bands cover the full band, with weights that sum to one in every sub-band and overall. '
  'The unique-wavelength list used for full-band images contains each sampled wavelength once, and its weights sum to one and equal the sums of the weights of the merged samples.',
  ['configurations'], 'all numbers of sub-bands and samples per sub-band, all bandwidths and central wavelengths',
  'Tests fix one or two (sub-band, wavelength) combinations.',
  [S], [('spectral setup', 'falco/setup.py:set_spectral_properties')], ['mp.sbp_centers', 'mp.sbp_weights', 'mp.full.lambdasMat'])

p('P11', 'Jacobian modes: one per controlled star, sub-band and Zernike, well weighted',
  'The control Jacobian has, for every star, one mode for piston in every sub-band and one mode for every other listed Zernike (with a nonzero coefficient) in the first, the reference and the last sub-band, each carrying the star, sub-band and Zernike of its combination, all mode lists having the same length. '
  'Weights are positive; those of one Zernike of one star sum to one and are equal over the sub-bands used, except that the first and last sub-bands count half when the estimate is perfect. Any list of distinct Zernikes containing piston is accepted, in any order; piston is never scaled; a list without piston or with a repeated Zernike is rejected.',
  ['configurations'], 'all sub-band counts, stars, Zernike lists, coefficients and reference sub-bands',
  'Tests use a few fixed configurations.',
  [S], [('modal weights', 'falco/setup.py:falco_set_jacobian_modal_weights')], ['mp.jac.*'])

p('P12', 'The control schedule expands to the stated per-iteration settings',
  'Each schedule row contributes as many iterations as its first column says (none for zero), in row order; each of them carries the row\'s complex regularisation and exactly the mirrors whose digits make up its mirror code. '
  'A row flagged for re-linearisation or for a grid search flags the first iteration that follows the rows before it, and no other; the total number of iterations is the sum of the first column.',
  ['configurations'], 'all schedule tables', 'Tests run a few fixed schedules.',
  ['falco/ctrl.py'], [('schedule', 'falco/ctrl.py:efc_schedule_generator')], ['falco.efc_schedule_generator'])

p('P13', 'Deformable-mirror constraints always hold after they are enforced',
  'After constraints are enforced, every total actuator voltage (command plus bias) lies within the mirror\'s voltage limits, dead actuators sit at zero command, pinned actuators sit at their pinned command, and the second actuator of a tied pair has the command of the first. '
  'Only out-of-range, dead, pinned and tied actuators move, and enforcing again changes nothing: neither the commands nor the list of pinned actuators.',
  ['inputs', 'histories'], 'all voltage maps, biases, limits, dead/pinned/tied lists with pinned values inside the limits and disjoint pairs, and repeated enforcement',
  'Tests use a few actuators and a single call.',
  [DM], [('constraints', 'falco/dm.py:enforce_constraints')], ['dm.V'],
  [('pinned/tied/dead lists', 'constraint bookkeeping on a mirror', 'falco/dm.py')])

p('P14', 'The rendered mirror surface uses the constrained, oriented command',
  'The surface of a deformable mirror is rendered from the gain map times the command after constraints (and quantisation, when configured), turned and flipped as its orientation setting says, with the configured spacing, tilts, rotation order, influence function and half-pixel shift for interpixel centring. '
  'The surface built from poke images is the exact sum over actuators of command times gain times influence image at its location.',
  ['inputs', 'configurations'], 'all mirror sizes, commands, gains, orientations, centrings and rotation orders',
  'Tests compare rendered maps for one mirror.', [DM],
  [('render', 'falco/dm.py:gen_surf_from_act'), ('poke superposition', 'falco/dm.py:gen_surf_from_poke_cube')],
  ['falco.dm.gen_surf_from_act', 'falco.dm.gen_surf_from_poke_cube'])

p('P16', 'Actuator gain-map update is the exact local surface response',
  'The updated gain map equals the derivative of the surface height with respect to the voltage at the present total voltage for every supported fit (linear: the gain is kept; quadratic; two-harmonic Fourier series), per actuator. '
  'Unknown fits and missing coefficients are rejected, and the command is not changed.',
  ['inputs'], 'all voltage maps, biases and fit coefficients', 'No test differentiates the height fit.',
  [DM], [('gain', 'falco/dm.py:update_gain_map')], ['dm.VtoH'])

p('P17', 'Control commands move exactly the used actuators and restore the model state',
  'The command computed by the controller solves the regularised normal equations in the stacked actuator vector; splitting it onto the mirrors moves only the actuators in use, each by its own entry, its mirror weight and once, on top of the present command. '
  'Trial evaluations during a control step leave the mirror commands as they were.',
  ['inputs', 'configurations'], 'all mirror subsets, actuator lists, weights, Jacobians and regularisations',
  'Tests run a single configuration end to end and compare a final contrast.',
  ['falco/ctrl.py'], [('split', 'falco/ctrl.py:wrapup, init'), ('solve', 'falco/ctrl.py:_efc')], ['mp.dm1.V', 'cvar'])

p('P18', 'Grid search over regularisations applies the best tried setting',
  'A grid search evaluates every combination of regularisation and command scale exactly once, in the stated order, and applies the command of a combination with the smallest measured mean intensity. '
  'The reported regularisation, contrast and image are those of the applied command; scheduled iterations that do not search use the scheduled regularisation, on top of the best one so far when so marked.',
  ['inputs', 'schedules'], 'all grids of settings and all measured intensities, serial or parallel evaluation',
  'Tests never enumerate orderings or ties of the grid.',
  ['falco/ctrl.py'], [('grid', 'falco/ctrl.py:_grid_search_efc, _planned_efc')], ['dDM', 'cvar'])

p('P19', 'Weak-actuator culling keeps the strong ones, consistently with the Jacobian',
  'Culling (first iteration, or other mirrors in use at a re-linearisation) keeps exactly the actuators whose Jacobian strength relative to the strongest one reaches the threshold, plus every member of a tied pair, in increasing order and without repetition. '
  'The Jacobian, the actuator lists and the actuator counts describe the same actuators afterwards; with the same mirrors as before nothing is culled.',
  ['inputs'], 'all Jacobians, thresholds, tied pairs and mirror subsets',
  'Tests only run with nothing culled.', ['falco/ctrl.py'], [('cull', 'falco/ctrl.py:cull_weak_actuators')],
  ['mp.dm1.act_ele', 'jacStruct.G1'])

p('P20', 'Tied actuators act as one in the Jacobian',
  'For each pair of tied actuators in use the Jacobian column of the first actuator becomes the sum of both columns and that of the second becomes zero, so the predicted field change of a tied command is unchanged; columns of untied actuators are unchanged. ',
  ['inputs'], 'all Jacobians, lists of used actuators and disjoint tied pairs among them', 'No test checks the columns.',
  ['falco/model/models.py'], [('ties', 'falco/model/models.py:apply_ties_to_jac')], ['jacStruct.G1'])

p('P21', 'Spatial control weights are applied to intensity as configured',
  'A dark-hole pixel\'s control weight is the product over the configured annuli that contain it (inner edge included, outer edge not) of the square root of that annulus\' weight and is one outside all of them; for each star this is multiplied by the star\'s weight, in the order of the control region\'s pixels. '
  'Applying the weights multiplies every Jacobian entry by the weight of its pixel for the star of its mode.',
  ['configurations'], 'all annulus lists, weights, stars and control regions', 'Tests use an empty list.',
  [S, 'falco/ctrl.py'], [('weights', 'falco/setup.py:falco_set_spatial_weights'), ('weighting', 'falco/ctrl.py:apply_spatial_weighting_to_Jacobian')], ['mp.WspatialVec'])

p('P22', 'Parallel and serial evaluation give the same results',
  'Images, normalisation factors, Jacobians, perfect estimates and the control grid search computed with worker threads or processes equal the serial results, each result landing at the position of its task, for every order of completion and every interleaving of tasks that share objects. ',
  ['schedules', 'configurations'], 'all task counts, completion orders and configurations',
  'Parallel tests run one configuration and depend on the scheduler\'s actual order.',
  ['falco/imaging.py', 'falco/model/models.py', 'falco/est.py', 'falco/ctrl.py'],
  [('parallel branches', 'falco/imaging.py, falco/est.py, falco/model/models.py, falco/ctrl.py')], ['falco.imaging.*', 'falco.est.*'])

p('P23', 'Pairwise probing recovers the field and leaves the mirrors as found',
  'At every pixel of the estimation region the estimated field solves the least-squares system of the measured differences between the two images of each probe pair, with the measured probe amplitudes and modelled probe phases (or the Jacobian\'s response to the probe), using the pairs that measured an amplitude there; it is zero where fewer than two did or where it exceeds the threshold, and the incoherent estimate is the unprobed image minus its squared modulus. '
  'The two probes of a pair have opposite surfaces of the stated shape, the axis of its discontinuity is the configured one (or alternates between pairs, the other way round at every second iteration), each image is taken and recorded at the command as found plus its probe on the probing mirror only, scheduled probe parameters are those of the iteration, and afterwards both mirrors are as found.',
  ['inputs', 'configurations'], 'all images, probe commands, probe counts, sub-bands and control-mirror choices',
  'Tests run one simulated sequence.', ['falco/est.py'],
  [('probing', 'falco/est.py:pairwise_probing'), ('probe shapes', 'falco/est.py:gen_pairwise_probe, gen_pairwise_probe_square')], ['ev.Eest', 'mp.dm1.V'])

p('P24', 'Images are weighted sums of normalised model intensities',
  'A sub-band image is the wavelength-weighted sum over stars of the squared modulus of the normalised model field, averaged over the polarisation states; the full-band image is the sub-band-weighted sum of these, and configured detector noise enters once per sub-band. '
  'The normalisation factors are the peaks of the unocculted images of the same model, sub-band and wavelength, and computing an image does not change the mirror commands or the normalisation. '
  'Each model run starts from the stored pupil field of its wavelength, weighted by the square root of the star\'s brightness and tilted by the positions of the star and the source. ',
  ['configurations', 'inputs'], 'all wavelength samplings, star weights and polarisation states',
  'Tests compare a few contrast numbers of default models.', ['falco/imaging.py'],
  [('image formation', 'falco/imaging.py:get_sbp_image, get_summed_image, get_expected_summed_image'), ('normalisation', 'falco/imaging.py:calc_psf_norm_factor'), ('model input', 'falco/model/models.py:full, compact')], ['falco.imaging.get_sbp_image', 'falco.imaging.get_summed_image'])

p('P25', 'Gradient-based control follows the derivative of its cost within voltage limits',
  'The cost is the weighted sum over control modes of the squared predicted field (estimate plus modelled change from the current command) in the control region, plus the regularisation coefficient times the squared command. '
  'The returned gradient has one entry per actuator in use: its field part is each mode\'s weighted predicted field carried back through the stops, masks, rotations and mirrors of the model linearised at the current command, scaled by the actuator\'s gain and zero for dead actuators; its penalty part is the derivative of the penalty. Evaluating it leaves mirrors and inputs as they were. '
  'The optimiser starts from no change, is bounded so that every actuator\'s total voltage (command plus bias) stays in its mirror\'s range, its answer is the change reported and imaged, and the mirrors are restored. The penalty\'s scale is the largest diagonal entry of the weighted normal matrix of the selected actuators, and computing it restores the actuators in use.',
  ['inputs', 'configurations'], 'all commands, fields, weights, gains, dead actuators, coronagraph types and regularisations, both mirrors in use',
  'Tests compare gradients of one mode with no regularisation.', ['falco/ctrl.py', 'falco/model/models.py'],
  [('cost and gradient', 'falco/model/models.py:compact_reverse_gradient'), ('optimisation', 'falco/ctrl.py:_ad_efc'), ('penalty scale', 'falco/ctrl.py:set_utu_scale_fac')], ['falco.ctrl._ad_efc', 'falco.model.compact_reverse_gradient'])

p('P26', 'Configuration objects evaluate lazily, once, and stay isolated',
  'Attributes given as expressions are evaluated on first access against the given context, attribute and item views agree, and loading one configuration never changes another or the caller\'s data. '
  'Plain values round-trip unchanged, including nested objects and lists.',
  ['inputs', 'histories'], 'all configuration texts and access orders', 'Tests load a few example files.',
  ['falco/config'], [('objects', 'falco/config/Object.py, Eval.py')], ['falco.config.*'])

p('P27', 'Wavefront-control bookkeeping records what was measured at each iteration',
  'A run of n iterations estimates, records and controls once per iteration in order; every recorded quantity of an iteration (mirror commands, surface statistics, measured, modulated and unmodulated intensities of the scoring and correction regions, per mode and in total) equals its value at that iteration and does not change when arrays are reused later. '
  'The mirrors, regularisation and re-linearisation of an iteration are those scheduled; the Jacobian given to the controller is the one of the last re-linearisation, with its spatial weights applied once. Histories start empty, with room for the initial state and every iteration and one column per control mode.',
  ['histories'], 'all iteration counts, schedules and measured values', 'Tests look at the last contrast only.',
  ['falco/wfsc.py'], [('loop', 'falco/wfsc.py:loop'), ('intensities', 'falco/wfsc.py:store_intensities'), ('statistics', 'falco/wfsc.py:falco_compute_dm_stats'), ('commands', 'falco/wfsc.py:store_dm_command_history'), ('histories', 'falco/setup.py:init_storage_arrays')], ['out'])

p('P30', 'Focal-plane-mask thickness lookup and quantisation are exact',
  'Discretised mask thickness maps are clamped to the tabulated range and rounded to the nearest table step, and the complex transmission of each pixel is the table entry of its two thickness indices for the right wavelength. ',
  ['inputs'], 'all thickness maps, table ranges and steps, wavelengths and sub-bands', 'Tests use one mask.',
  ['falco/hlc.py'], [('discretise', 'falco/hlc.py:discretize_fpm_surf'), ('lookup', 'falco/hlc.py:gen_fpm_from_LUT'), ('surfaces', 'falco/hlc.py:gen_fpm_surf_from_cube'), ('mask of each wavelength', 'falco/model/models.py:full, compact')], ['falco.hlc.*'])

p('P31', 'Software masks select exactly the stated focal-plane region',
  'A dark-hole mask selects the pixels whose coordinates satisfy the configured inner and outer bounds, sector side and opening angle, shape and offsets, at the stated sampling and centring, and combinations of regions are unions. ',
  ['configurations'], 'all shapes, radii, angles, sides, offsets, resolutions and fields of view',
  'Tests compare areas of a few masks with a tolerance.', ['falco/mask.py', S],
  [('software mask', 'falco/mask.py:falco_gen_SW_mask'), ('regions', 'falco/setup.py:falco_configure_dark_hole_region')], ['falco.mask.falco_gen_SW_mask'])

p('P15', 'Surface quantisation rounds to whole steps in the stated direction',
  'A quantised mirror command gives a surface that is a whole multiple of the minimum step at every actuator: the nearest one, the one below, above or towards zero, as configured, never a full step or more away. '
  'The unquantised command is kept, and rounding rules that are unknown or not text are rejected.',
  ['inputs'], 'all commands, gains, steps and rounding rules', 'No unit test.', [DM],
  [('discretise', 'falco/dm.py:discretize_surf')], ['falco.dm.discretize_surf'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for q in sorted(P, key=lambda q: q['id']):
        f.write(json.dumps(q) + '\n')
print(len(P))
