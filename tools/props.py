"""Single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level='proof', state=None, observe=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, level=level, state=state, observe=observe, note=note))


S = 'specula/'
PO = S + 'processing_objects/'
DO = S + 'data_objects/'

prop('C01', 'Exact integer clock: a run executes each instant once, in order',
     'Simulated time is an integer number of clock ticks and converting seconds to ticks picks the nearest tick, so a '
     'run of duration T with step dt started at t0 executes exactly the instants t0, t0+dt, ... below t0+T, each once '
     'and in order. At every instant, every block prepares before any block computes, groups are processed in trigger '
     'order, only the blocks that are ready compute and publish, and every block is set up before the first instant '
     'and finalised exactly once at the end. A block that fails stops the run at that instant instead of being skipped.',
     ['configurations', 'schedules'],
     'all positive step lengths, durations and start times; any number of iterations; any set of blocks in any number '
     'of trigger groups, each ready or not at each instant',
     'Tests run a handful of step/duration pairs; off-by-one or drift errors of the clock appear only for '
     'particular ratios and long runs, and ordering mistakes only with particular sets of ready blocks.',
     [S + 'loop_control.py', S + 'base_time_obj.py'],
     [('integer clock conversion', S + 'base_time_obj.py: seconds_to_t, t_to_seconds'),
      ('loop driver', S + 'loop_control.py: start, iter, run, finish, niters')],
     observe='times at which blocks prepare, compute, publish, finalise',
     note='The loop body is proved inductively (one iteration from an arbitrary instant), the order of calls for '
          'block sets of fixed size.')
prop('C02', 'Trigger order respects every declared dependency',
     'For every acyclic wiring of a simulation, each block is placed in a group strictly after the groups of all the '
     'blocks whose current outputs (or objects) it uses, whether they are named singly, in a list, through a delayed '
     'reference with zero delay, or through an object reference; a one-step-delayed connection imposes no order. '
     'Every block appears exactly once. A wiring with a cycle not broken by a delay is rejected with an error.',
     ['configurations'],
     'every directed graph over up to three blocks with every mixture of connection forms (exhaustive), and random '
     'larger graphs; the single placement step is proved for arbitrary names',
     'Tests use a few fixed diagrams; wrong order shows up only for particular shapes of the dependency graph and '
     'forms of reference.',
     [S + 'simul.py'],
     [('trigger order', S + 'simul.py: trigger_order, build_trigger_order, has_delayed_output'),
      ('leaf test', S + 'simul.py: is_leaf')], level='exploration',
     note='Mostly bounded: graph sizes are fixed (complete enumeration for 3 blocks), edges and delays symbolic; '
          'see coverage.bounded_obligations in the evidence.')
prop('C03', 'A block computes exactly when something new reached it',
     'At each instant a block is ready if and only if at least one of its connected inputs carries a new value for '
     'that instant (or it has no inputs); it never computes or publishes otherwise, and it reads the data objects as '
     'they are at that instant. A missing mandatory input, an input or output not declared by the block, or an input '
     'of the wrong type is reported as an error at set-up and never silently accepted.',
     ['schedules', 'configurations'],
     'all refresh times of all inputs (single, list, optional, mixed), any instant, any number of steps',
     'Tests set one or two particular refresh times; gating errors need particular combinations of stale and fresh '
     'inputs, and list members.',
     [S + 'base_processing_obj.py', S + 'connections.py'],
     [('gating', S + 'base_processing_obj.py: check_ready, checkInputTimes, prepare_trigger, trigger, post_trigger'),
      ('interface checks', S + 'base_processing_obj.py: check_input_names, check_output_names, sanity_check')],
     observe='readiness, exceptions')
prop('C04', 'Connections deliver the connected objects; transfers copy everything',
     'An input returns exactly the objects connected to it: a list input returns all of them, in connection order, '
     'each exactly once, and a single-valued input returns the latest one; an object of the wrong type is '
     'refused. Copying or transferring a data object yields an independent object with the same contents, type and '
     'time stamp, and later changes to either do not affect the other.',
     ['histories', 'inputs'],
     'any sequence of set/append operations on an input, any connected values, any array contents and sizes',
     'Tests connect one or two objects; order, duplication and aliasing errors need longer histories or later writes.',
     [S + 'connections.py', S + 'base_data_obj.py', DO + 'electric_field.py', S + 'base_value.py'],
     [('inputs', S + 'connections.py: InputValue, InputList'),
      ('copies', S + 'base_data_obj.py: copyTo, transferDataTo')])
prop('C05', 'Parameter files combine and override as documented',
     'A connection string names the block, the output, the optional input name and the optional delay it spells, for '
     'every legal spelling, and a malformed one is rejected. Combining an additional file adds its new blocks, '
     'overrides exactly the parameters it lists for the blocks it marks as overridden, removes exactly the listed '
     'blocks together with every reference to them, and leaves everything else as it was; redefining an existing '
     'block otherwise is an error. Command-line overrides change exactly the named parameter.',
     ['configurations', 'inputs'],
     'arbitrary block, output and input names, any integer delay; arbitrary parameter dictionaries of bounded shape',
     'Tests use a handful of files; parsing and merging errors need particular names, list positions or references.',
     [S + 'simul.py', S + 'lib/utils.py'],
     [('connection grammar', S + 'simul.py: split_output'),
      ('combination', S + 'simul.py: combine_params, remove_params'),
      ('overrides', S + 'simul.py: apply_overrides')])
prop('C06', 'The simulation built is the one described; replays reproduce it',
     'Every object described is built once, after the objects it refers to, with exactly the parameters given, and '
     'every input receives exactly the outputs it names, in order, a one-step delay included; a reference to a '
     'missing object, output or input, or of an incompatible type, is an error. A replay description derived '
     'from a recorded run keeps every remaining block and its parameters, and takes each recorded output from storage, '
     'so replaying gives the recorded values.',
     ['configurations', 'programs'],
     'enumerated simulation descriptions (every reference graph of three objects, every placement of list, single '
     'and delayed references) and a complete loop recorded and replayed',
     'Tests use a few fixed descriptions; wiring and replay errors need particular combinations of list, delayed and '
     'optional references.',
     [S + 'simul.py'],
     [('build', S + 'simul.py: build_objects, setReference, connect_objects'),
      ('replay', S + 'simul.py: build_replay, build_targeted_replay, data_store_to_data_source')],
     level='exploration',
     note='Bounded throughout: descriptions are enumerated up to a stated size, values symbolic.')
prop('C07', 'Recorded data are complete, unaltered and correctly time-stamped',
     'Recording an output stores one sample per instant at which it was refreshed and none otherwise (one in every n '
     'when downsampling by n), with the value it had at that instant and the exact integer time, and later changes of '
     'the live object do not alter it. Written in one or in several chunks and read back, the samples and times are '
     'identical and in order. A data source emits each stored sample at exactly its recorded instant, is silent at the '
     'others, and a data buffer emits consecutive blocks of n samples with no loss or overlap.',
     ['histories', 'inputs'],
     'any refresh history of the inputs, any values and array sizes, any downsampling factor, chunk or block length',
     'Tests store a few samples with one schedule; loss, duplication, aliasing and time-stamp errors need particular '
     'refresh patterns, chunk boundaries or downsampling phases.',
     [PO + 'data_store.py', PO + 'data_source.py', PO + 'data_buffer.py'],
     [('recording', PO + 'data_store.py: trigger_code, save, save_chunk, finalize'),
      ('replay', PO + 'data_source.py: trigger_code'), ('buffering', PO + 'data_buffer.py: trigger_code')])
prop('C08', 'Temporal filters implement their difference equation and delay exactly',
     'For every mode independently, an IIR filter outputs at each step the value given by its difference equation '
     'applied to the (gain-modulated) current and past inputs and its own past outputs, an integrator the same with its '
     'gain and forgetting factor, and a state-space filter y = C x + D u with x updated by A x + B u. The published '
     'command is the undelayed one of d steps ago, linearly interpolated between the two neighbouring steps when d is '
     'not an integer. Without integration only the numerator acts. A scalar command or gain applies to all modes, other '
     'size mismatches are errors. A reset returns the filter to rest, a new integrator gain acts from that step on. '
     'Published commands do not change until the next step. The multirate fusion filter adds to its previous output input '
     'the increments of the fast and of the slow inputs, each slow one only at the steps that are a multiple of its period.',
     ['histories', 'inputs'],
     'any number of modes, any numerator and denominator order, any coefficients, states, inputs, gains and delays',
     'Tests follow one or two filters for a few steps with fixed coefficients; state-shift, delay-line and '
     'gain-broadcast errors need other orders, delays or longer histories.',
     [PO + 'base_filter.py', PO + 'iir_filter.py', PO + 'integrator.py', PO + 'dynamic_iir_filter.py',
      PO + 'low_pass_filter.py', PO + 'ssr_filter.py', PO + 'multirate_complementary_filter.py'],
     [('delay line and gain', PO + 'base_filter.py: prepare_trigger, post_trigger'),
      ('difference equation', PO + 'iir_filter.py: trigger_code'), ('state space', PO + 'ssr_filter.py: trigger_code'),
      ('dynamic gain and reset', PO + 'dynamic_iir_filter.py: prepare_trigger')],
     note='One step of the IIR filter is proved from an arbitrary state for symbolic numbers of modes, orders and '
          'delay; histories from rest for orders up to three.')
prop('C09', 'Filter descriptions mean the transfer function they are built from',
     'Filter coefficients are kept lowest order first and aligned on the highest order; building a filter from gain '
     'and forgetting factor, state-space matrices, a delay, a low-pass specification or a control-library transfer '
     'function gives exactly that transfer function for every mode, modes are repeated block by block as requested, and '
     'changing the gain rescales only the numerator of the addressed modes. The frequency response, the rejection '
     'and noise transfer functions and the closed-loop denominator are those of the loop made of the filter and the '
     'given plant; several state-space filters form one block-diagonal system; inconsistent sizes are errors.',
     ['inputs', 'configurations'],
     'any coefficients, gains, forgetting factors, frequencies and plants, for one to three filters of up to three '
     'coefficients or states',
     'Tests check a few numerical filters; alignment, ordering and repetition errors appear only for particular '
     'orders, mode counts or fractional delays.',
     [DO + 'iir_filter_data.py', DO + 'ssr_filter_data.py'],
     [('coefficients', DO + 'iir_filter_data.py: __init__, set_num, set_den, set_gain, from_gain_and_ff, lpf_from_fc'),
      ('transfer functions', DO + 'iir_filter_data.py: frequency_response, RTF, NTF, closed_loop_denominator, discrete_delay_tf'),
      ('state space', DO + 'ssr_filter_data.py: __init__, from_gain, from_integrator')],
     note='Coefficient values are symbolic; numbers of filters and orders are enumerated up to three. Stability and '
          'control-library conversion are only tested.')
prop('C11', 'Fields multiply amplitudes, add phases and convert exactly to complex fields',
     'A field keeps its amplitude, phase, sampling and flux density until changed; multiplying it by another (or by a '
     'sub-region of it) multiplies amplitudes and adds phases pixel by pixel; the complex field at a wavelength is '
     'A exp(2 pi i phase / wavelength), for whole arrays, slices and preallocated outputs alike; a rectangular region '
     'has the samples of the original. Combining fields, reflecting one and removing the mean phase of the lit pixels '
     'do exactly that for any shape, square or not; mismatched sizes or samplings are errors; inputs are '
     'not modified. A pupil stop publishes its mask with zero phase.',
     ['inputs'],
     'any array sizes (square or not), amplitudes, phases, wavelengths, regions; one or several input fields',
     'Tests use small square fields; swapped axes, aliasing and per-wavelength errors need rectangular fields, offsets '
     'or a second use.',
     [DO + 'electric_field.py', DO + 'layer.py', DO + 'pupilstop.py', PO + 'electric_field_combinator.py',
      PO + 'electric_field_reflection.py', PO + 'phase_flattening.py'],
     [('field', DO + 'electric_field.py: resize, set_value, product, sub_ef, ef_at_lambda, phi_at_lambda'),
      ('combination', PO + 'electric_field_combinator.py: setup, trigger'),
      ('flattening', PO + 'phase_flattening.py: trigger_code')])
prop('C12', 'Saved data objects are restored unchanged',
     'For every data object that can be saved and restored (fields, layers, pupil stops, intensities, pixel frames, slopes, '
     'interaction and reconstruction matrices, subaperture and pupil descriptions, influence functions and their inverses, '
     'mode bases, time series, sources, laser launch telescopes, lenslets, filters, convolution kernels, values), '
     'restoring the file gives an object with the same contents and metadata (sampling, heights, tags, units, '
     'orders, normalisations), saving does not modify the object, and optional parts that were absent are absent again. '
     'A cached convolution kernel is the same as a computed one.',
     ['inputs', 'histories'],
     'any contents and sizes; every combination of optional parts',
     'Tests round-trip one or two instances of some objects; a dropped, exchanged or default-valued field shows up only '
     'with non-default metadata.',
     [DO + f for f in ('electric_field.py', 'layer.py', 'pupilstop.py', 'intensity.py', 'pixels.py', 'slopes.py', 'intmat.py',
      'recmat.py', 'subap_data.py', 'pupdata.py', 'ifunc.py', 'ifunc_inv.py', 'm2c.py', 'time_history.py',
      'spatio_temp_array.py', 'source.py', 'laser_launch_telescope.py', 'lenslet.py', 'iir_filter_data.py',
      'ssr_filter_data.py', 'convolution_kernel.py', 'gaussian_convolution_kernel.py')] + ['specula/base_value.py'],
     [('save and restore', DO + '*.py: save, restore, get_fits_header, from_header'),
      ('kernel cache', DO + 'convolution_kernel.py: process_kernels, save, restore')],
     note='FITS files are modelled as a faithful store of arrays and header cards within the rules of the format; the '
          'concrete runs use astropy. Kernels are enumerated up to 2x2 lenses of 2x2 pixels.')
prop('C14', 'Vector blocks compute their documented formula at every step',
     'Arithmetic, slicing, inserting, concatenating, combining, window-averaging and matrix-vector blocks output, for '
     'every element, exactly their documented formula of the current inputs: constants and second operands are '
     'applied element by element (missing trailing entries neutral, remapped entries at the listed positions), '
     'windowed averages cover exactly the samples of the window, and commands for several mirrors are split and '
     'joined at the configured offsets. The inputs are never modified and a later step does not depend on an earlier '
     'one except through the documented window.',
     ['inputs', 'histories'],
     'all vector lengths, contents, index lists, slices and window lengths; several consecutive steps',
     'Tests use one small vector for each block; off-by-one, aliasing and state-leak errors need other sizes, '
     'offsets or a second step.',
     [PO + 'base_operation.py', PO + 'base_slicer.py', PO + 'base_inserter.py', PO + 'windowed_integration.py',
      PO + 'mvm.py', PO + 'linear_combination.py', PO + 'mirror_commands_combinator.py'],
     [('arithmetic', PO + 'base_operation.py: trigger_code'), ('slicing', PO + 'base_slicer.py: trigger_code'),
      ('inserting', PO + 'base_inserter.py: trigger_code'),
      ('windows', PO + 'windowed_integration.py: trigger_code'), ('matrix', PO + 'mvm.py: trigger_code'),
      ('mirrors', PO + 'linear_combination.py, ' + PO + 'mirror_commands_combinator.py: trigger_code')])
prop('C13', 'Slopes, matrices, bases and pupil descriptions keep one consistent layout',
     'The x and y slopes of a vector, interleaved or not, are where the layout says at any length, and every operation on '
     'slopes (sum, difference, resize, rotation, 2D map) uses that layout. Interaction matrices keep rows as slopes and '
     'columns as modes through assignment, resizing, row/column views, slopes and mode cuts, and construction from '
     'measured slopes; the reconstructor is the pseudo-inverse of the matrix. Cutting a basis, its inverse or an '
     'M2C matrix keeps exactly the modes selected (start, count or list) in their order, and the 3D form of a basis has '
     'each mode inside the mask. Pupil and subaperture descriptions select the listed pixels in the listed order.',
     ['inputs'],
     'any vector lengths, matrix sizes, cuts, masks and index lists',
     'Tests use small even-sized vectors and one basis; exchanged halves, dropped last elements and axis swaps need odd or '
     'rectangular sizes.',
     [DO + f for f in ('slopes.py', 'intmat.py', 'recmat.py', 'ifunc.py', 'ifunc_inv.py', 'm2c.py', 'pupdata.py', 'subap_data.py')],
     [('slopes', DO + 'slopes.py: xslopes, yslopes, indx, indy, resize, sum, subtract, get2d'),
      ('matrices', DO + 'intmat.py: set_nmodes, set_nslopes, reduce_size, reduce_slopes, build_from_slopes'),
      ('bases', DO + 'ifunc.py: cut, ifunc_2d_to_3d; ' + DO + 'ifunc_inv.py: cut_modes; ' + DO + 'm2c.py: cut'),
      ('pupils', DO + 'pupdata.py: pupil_idx, complete_mask; ' + DO + 'subap_data.py')],
     note='Rotation is tested with concrete numbers only; pseudo-inverses are an uninterpreted function.')
prop('C15', 'Reconstruction computes modes from slopes by the documented linear algebra',
     'Modes are the reconstruction matrix times the slopes (of one sensor, or several in the listed order, filtered '
     'first if a filter is given). With pseudo-open-loop control the modes are those of slopes plus interaction matrix times '
     'commands, projected and with the commands subtracted; before any command exists commands count as zero; '
     'the implicit form gives the same. A multirate reconstruction uses the matrix of exactly the sensors with new slopes '
     'and publishes zero for the others. Modal analysis applies the inverse basis to the phase inside the mask for each field of a '
     'list; unwrapping recovers a phase up to a constant. Impossible configurations are errors; inputs are not modified.',
     ['inputs', 'histories'],
     'any numbers of slopes, modes and commands; any matrices and contents; one or several sensors and fields',
     'Tests use one small matrix for each mode; wrong order of sensors, stale commands and sign errors need several '
     'inputs, non-square matrices or a second step.',
     [PO + f for f in ('modalrec.py', 'modalrec_implicit_polc.py', 'modalrec_multirate.py', 'modal_analysis.py')],
     [('reconstruction', PO + 'modalrec.py: __init__, setup, prepare_trigger, trigger_code'),
      ('implicit POLC', PO + 'modalrec_implicit_polc.py: __init__, trigger_code'),
      ('multirate', PO + 'modalrec_multirate.py: __init__, setup, trigger_code'),
      ('modal analysis', PO + 'modal_analysis.py: __init__, trigger_code, unwrap_ls')],
     note='Equality of implicit and explicit form is bounded to 2x2x2; unwrapping and rms are only tested.')
prop('C16', 'A deformable mirror shows the commanded combination of its modes',
     'At each step the phase of the layer is, for every pixel of the mirror mask, the sum over the selected modes (first, '
     'count or list of modes, in order) of command times influence function, times the sign of the mirror (-1 unless '
     'given), and zero outside the mask. With a modes-to-commands matrix the commands are first turned into actuator '
     'commands by the selected columns of that matrix. Extra commands are ignored and missing ones count as zero; a new '
     'command replaces the previous one completely. The layer has the shape and amplitude of the mask and the given '
     'height and sampling, also when the mask is not square; contradictory settings are errors.',
     ['inputs', 'configurations'],
     'any mask and basis, any number of modes and selection, any command vector, several steps',
     'Tests use full square masks and all the modes; wrong selections, transposed masks and stale commands need partial '
     'selections, rectangular masks or a second command.',
     [PO + 'dm.py', DO + 'ifunc.py', DO + 'layer.py'],
     [('construction', PO + 'dm.py: __init__'), ('surface', PO + 'dm.py: trigger_code')],
     note='Lists of modes are proved for up to three entries; the Zernike mirror built by type is only tested.')
prop('C17', 'The detector turns each exposure into pixels by the documented chain',
     'The detector accumulates intensity times step length times bandwidth from its start time, publishes the pixels and the '
     'integrated intensity only at the last step of each exposure (with that time), and starts the next exposure from '
     'zero. Binning (mean of the block, also for rectangular detectors), quantum efficiency, background and dark level, '
     'charge transfer, clock-induced charge, photon noise, multiplication noise, read-out noise, pixel gains and conversion '
     'to counts with bias and back are applied in this order, each only if enabled. Photon, multiplication and read-out '
     'noise are the next draws of generators with the given seeds, so equal seeds give equal pixels. An exposure '
     'that is not a positive multiple of the step is an error.',
     ['inputs', 'histories', 'configurations'],
     'any detector size, intensity, accumulated charge and instant; exposures of one to five steps; every noise setting listed',
     'Tests check flat images and averages of noise; wrong order of the noise terms, exposures that start late or leak '
     'into the next one need particular settings and steps.',
     [PO + 'ccd.py', DO + 'pixels.py', DO + 'intensity.py', S + 'lib/rebin.py'],
     [('exposure', PO + 'ccd.py: trigger_code'), ('binning', PO + 'ccd.py: apply_binning; ' + S + 'lib/rebin.py'),
      ('noise', PO + 'ccd.py: apply_noise')],
     note='Random draws are an unknown fixed sequence for each seed; charge transfer is bounded to 2x2 pixels and '
          'clock-induced charge (unseeded in the code) is only tested.')
prop('C18', 'Slope computers turn each frame into the documented signals',
     'Pyramid and double-roof computers take, for every subaperture, the four pixels of its pupils minus the threshold, '
     'negative values counting as zero, and combine them (left-right, up-down), normalised by the mean, total or given flux, '
     'or publish normalised intensities. The Shack-Hartmann computer gives the centre of gravity of each subaperture in units '
     'of half its side, with threshold, window, weights or weights learned from the last complete period, and zero where '
     'there is almost no light. Curvature, Zernike and interferometric computers give one value for each pixel of the pupil, '
     'also as a map of the frame. Flux of every subaperture, its total and mean are published with the slopes. Reference slopes '
     'are subtracted x from x and y from y, then slope matrix and slope filter apply. A dark frame gives zero pyramid and '
     'Shack-Hartmann slopes. Contradictory settings are errors.',
     ['inputs', 'configurations', 'histories'],
     'any frame size, number and placement of subapertures, pixel values and thresholds; subapertures of two or three pixels a side',
     'Tests use flat or single-spot frames and few layouts; negative pixels, dark subapertures, rectangular frames and '
     'mixed storage orders need particular inputs.',
     [PO + 'slopec.py', PO + 'pyr_slopec.py', PO + 'double_roof_slopec.py', PO + 'sh_slopec.py', PO + 'cur_wfs_slopec.py',
      PO + 'zwfs_slopec.py', PO + 'ciao_ciao_slopec.py'],
     [('reference and filter', PO + 'slopec.py: post_trigger, do_accumulation'), ('pyramid', PO + 'pyr_slopec.py: trigger_code'),
      ('centre of gravity', PO + 'sh_slopec.py: calc_slopes_nofor, computeXYweights'),
      ('curvature and Zernike', PO + 'cur_wfs_slopec.py, ' + PO + 'zwfs_slopec.py: trigger_code'),
      ('interferogram', PO + 'ciao_ciao_slopec.py: trigger_code')],
     note='Curvature, Zernike and interferometric sensors are proved for a few geometries each; windows and learned '
          'weights are bounded, Gaussian weights only tested.')
prop('C19', 'The atmosphere moves with the wind and is seen along each line of sight',
     'Frozen-flow layers are windows of fixed screens scaled by Cn2, seeing and airmass, displaced by the sum of wind speed times '
     'elapsed time over the pixel pitch plus a constant time offset, with linear interpolation between pixels, turned to the '
     'wind direction and restarted at the end of the screen; downward and upward lists have their own offsets. Endless screens '
     'take one new line for every pixel travelled and carry the fraction over. Random-phase screens use each tile of the screen '
     'once, then screens of the next seed. Each source sees the product of amplitudes and the sum of phases of all layers over '
     'its footprint: centred along its direction, displaced with the pupil, shrunk by the cone effect of its height, stretched, '
     'rotated and shifted as the layer says; or one field per layer without merging. Lines of sight outside a layer, sources '
     'below a layer and contradictory settings are errors. Screens depend only on their seed and parameters. Layers cover field '
     'of view and displaced pupil.',
     ['inputs', 'configurations', 'histories'],
     'any screen and layer contents, winds, times and seeing; pupils of a few pixels',
     'Tests check shapes and statistics of random screens for a few winds; restarts, carried fractions, cone effect combined '
     'with displaced pupils and odd layers need particular settings and histories.',
     [PO + 'atmo_evolution.py', PO + 'atmo_evolution_up_down.py', PO + 'atmo_infinite_evolution.py', PO + 'atmo_random_phase.py',
      PO + 'atmo_propagation.py', PO + 'phase_screen_cube.py', DO + 'infinite_phase_screen.py', S + 'lib/phasescreen_manager.py'],
     [('frozen flow', PO + 'atmo_evolution.py: _update_layer_list'),
      ('endless screens', PO + 'atmo_infinite_evolution.py: _process_propagation_direction'),
      ('random phase', PO + 'atmo_random_phase.py: prepare_trigger, trigger_code'),
      ('propagation', PO + 'atmo_propagation.py: layer_interpolator, trigger_code')],
     note='Screens themselves (von Karman spectrum, endless screen statistics), chromatic shift, Fresnel propagation and magnified '
          'layers are only tested; the endless screen is a contract (a new line enters, the opposite one leaves) in the proof of '
          'the flow. Layer interpolation in oblique winds is congruence with scipy.ndimage.rotate.')
prop('C20', 'Images, Strehl ratios and coronagraphs follow Fourier optics',
     'The instantaneous image is the squared modulus of the centred Fourier transform of the padded field at the wavelength, '
     'normalised to unit total; the Strehl ratio is its central pixel over that of the unaberrated first pupil. Long-exposure '
     'image, Strehl ratio and deviation are mean and standard deviation over exactly the steps from start_time on. The perfect '
     'coronagraph removes the mean field over the pupil (or the coherent part of the Cavarroc formula) with the same '
     'normalisation. Real coronagraphs multiply by the apodizer, by the focal mask in the focal plane and by the stop in the '
     'second pupil plane, without residual tilt, and the flux of the output is scaled by the transmitted light. Lyot, '
     'four-quadrant, vortex and apodizer masks have their documented geometry in lambda over D about the optical axis. The pixel '
     'size follows wavelength, diameter and sampling; profiles are ring means. Contradictory settings are errors.',
     ['inputs', 'configurations', 'histories'],
     'any field; image of any field of any size; exposures of three steps; mask geometries sampled',
     'Tests look at flat wavefronts and shapes; start times, changing pupils, odd sizes, tilt of the output phase and mask '
     'radii need particular settings.',
     [S + 'lib/calc_psf.py', PO + 'psf.py', PO + 'psf_coronagraph.py', PO + 'abstract_coronagraph.py', PO + 'lyot_coronagraph.py',
      PO + 'vortex_coronagraph.py', PO + 'four_quadrant_coronagraph.py', PO + 'apodizer_coronagraph.py', S + 'lib/radial_profile.py'],
     [('image', S + 'lib/calc_psf.py: calc_psf'), ('exposure', PO + 'psf.py: trigger_code, post_trigger, finalize'),
      ('perfect coronagraph', PO + 'psf_coronagraph.py: calc_coronagraph_psf'),
      ('planes', PO + 'abstract_coronagraph.py: trigger_code, post_trigger')],
     note='The Fourier transform is an unknown fixed function in proofs (Parseval checked concretely); masks, profiles and the '
          'phase apodizer are tested.')
prop('C21', 'Resampling of images and fields keeps values where they belong',
     'Rebinning by integer factors takes the mean of each block of a rectangular array, sampling takes the element at the '
     'proportional position, and any other factor is an error. Area interpolation gives each output pixel the share of the '
     'input over its area and scales the result to the requested total (by default the input total) for any pair of sizes. '
     'Grid interpolation evaluates the bilinear interpolant at the scaled grid, magnified and rotated about the centre, '
     'shifted and clamped to the input, or at the given coordinates; equal grids without transformation give the input. '
     'Field interpolation extends the phase linearly by one pixel around the pupil, keeps binary pupils binary, and '
     'changing one misalignment keeps the others. Inputs are not modified.',
     ['inputs', 'configurations'],
     'any array sizes and contents; reduction factors up to five; any shifts, magnifications and coordinates',
     'Tests use square arrays and a few sizes; transposed axes, rounding of indices and wrong clamps need '
     'rectangular arrays or particular size pairs.',
     [S + 'lib/rebin.py', S + 'lib/toccd.py', S + 'lib/interp2d.py', S + 'lib/extrapolation_2d.py'],
     [('rebinning', S + 'lib/rebin.py: rebin2d'), ('area interpolation', S + 'lib/toccd.py: toccd'),
      ('grid interpolation', S + 'lib/interp2d.py: Interp2D'),
      ('field interpolation', S + 'lib/extrapolation_2d.py: EFInterpolator')],
     note='The bilinear interpolator of scipy is an unknown fixed function of values and coordinates in proofs; pairs of '
          'sizes for area interpolation are enumerated (bounded) and sampled up to 60x60; edge extension uses five masks.')
prop('C22', 'Signal generators produce the documented signal at every instant',
     'Wave generators give trend times time plus constant plus amplitude times the waveform (sine, square, triangle) at the '
     'frequency and offset of each element. A schedule gives the values of the last scheduled time not later than the present. Random '
     'generators give the successive draws of their seeded sequence, scaled and shifted element by element; the automatic '
     'amplitudes follow the radial order of the modes and have the requested total rms. The push-pull generator gives, one '
     'row per step, positive and negative pokes of each mode in the documented order, repeated ncycles times and held for the requested samples, default '
     'amplitudes falling with the square root of the radial order. A recorded history plays row by row and holds the last. '
     'Vibrations play, sample by sample, one signal per mode from its PSD and its own seed, as many samples as steps in the run. '
     'Sizes that contradict each other are errors.',
     ['inputs', 'configurations', 'histories'],
     'any amplitudes, offsets, constants and trends of any size, any instant, any number of steps already taken; schedules of up to three times',
     'Tests compare a few samples with fixed parameters; errors of phase, order, scaling or of the last sample need particular '
     'frequencies, lengths and vectors.',
     [PO + 'wave_generator.py', PO + 'schedule_generator.py', PO + 'random_generator.py', PO + 'push_pull_generator.py',
      PO + 'time_history_generator.py', PO + 'vibration_generator.py', S + 'lib/modal_pushpull_signal.py', S + 'lib/utils.py'],
     [('waveforms', PO + 'wave_generator.py: trigger_code'), ('schedule', PO + 'schedule_generator.py: trigger_code'),
      ('pokes', S + 'lib/modal_pushpull_signal.py: modal_pushpull_signal'),
      ('vibrations', PO + 'vibration_generator.py: get_vibrations_time_hist, trigger_code'), ('signal of a PSD', S + 'lib/utils.py: psd_to_signal')],
     note='Random draws are those of the seeded numpy generator, sine and FFT unknown fixed functions; automatic amplitudes are tested.')
prop('C23', 'Calibration measures what was poked and saves exactly that',
     'The column of an interaction matrix of a mode is the mean over its pokes of the slopes divided by the poke; other '
     'modes stay untouched, stale slopes and pokes outside the range count for nothing, the matrices of several sensors '
     'and their stack are built from the same pokes. The reconstructor saved is the pseudoinverse of the first nmodes columns, or '
     'the minimum-variance one for exactly the given turbulence, modes and noise. The slope null is the mean of all slopes. '
     'Subapertures selected are those whose flux exceeds the threshold times the largest, each with its own pixels. Pyramid '
     'pupils have the centroid, radius and pixels of the measured discs, from frames summed over the integration time. The dark '
     'frame is the mean of the frames acquired since the trigger, every frame is published minus it, and requests to reset, '
     'change, save and load act as documented while wrong ones are ignored. Files are written where stated and an existing one is never '
     'overwritten unless allowed.',
     ['inputs', 'configurations', 'histories'],
     'any slopes, frames and poke amplitudes of any size; command and request sequences of up to seven steps',
     'Tests run one ordinary calibration; wrong columns, wrong means, repeated acquisitions and refused files need particular sequences.',
     [PO + x + '.py' for x in ('im_calibrator', 'multi_im_calibrator', 'rec_calibrator', 'multi_rec_calibrator', 'sn_calibrator', 'sh_subap_calibrator',
                               'pyr_pupdata_calibrator', 'dynamic_pyr_pupdata_calibrator', 'dynamic_dark_calibrator')],
     [('interaction matrix', PO + 'im_calibrator.py: trigger_code, finalize'), ('reconstructor', PO + 'rec_calibrator.py: finalize'),
      ('subapertures', PO + 'sh_subap_calibrator.py: _detect_subaps'), ('pupils', PO + 'pyr_pupdata_calibrator.py: _analyze_pupils, _generate_indices'),
      ('dark frame', PO + 'dynamic_dark_calibrator.py: trigger_code')],
     note='Pseudoinverse unknown fixed function in proofs (checked concretely); subaperture selection is bounded, pyramid pupils are tested.')
prop('C24', 'Wavefront sensors record the image that diffraction predicts',
     'Shack-Hartmann: each lens forms the squared modulus of the transform of its part of the field, cut to its field of view, convolved '
     'with its laser spot if any, and centred for a flat field; a tilt moves spots by tilt / pixel scale. Pyramid and double roof: the '
     'detector holds the power behind the prism summed over the modulation path with its weights, as pupils of the wanted diameter and '
     'distance, and a tilt moves light between the faces along its axis only. An extended source adds the image of each point with its '
     'flux. Curvature: two images through opposite defocus. Zernike: a disc of the given radius and delay. Interferometer: field plus its turned, tilted copy. '
     'Several wavelengths add with their weights and tilts. Total flux is flux density times pupil area (times transmission for pyramids). Ideal slopes are '
     'mean derivatives over lit pixels. Frames do not depend on earlier frames, on other sensors or on how work is divided; wrong parameters are refused.',
     ['inputs', 'configurations', 'histories'],
     'any field, optical elements and detector; any grid size for Shack-Hartmann and pyramid',
     'Tests compare a few frames with references; wrong weights, axes, sizes and state shared between sensors need other geometries.',
     [PO + x + '.py' for x in ('sh', 'distributed_sh', 'modulated_pyramid', 'modulated_double_roof', 'ext_source_pyramid', 'zernike_sensor', 'curvature_sensor',
                               'ciao_ciao_sensor', 'ideal_derivative_sensor', 'poly_chrom_wfs', 'poly_chrom_sh', 'poly_crom_pyramid')],
     [('Shack-Hartmann', PO + 'sh.py: trigger_code'), ('pyramid', PO + 'modulated_pyramid.py: trigger_code, cache_ttexp, calc_pyr_geometry'),
      ('curvature', PO + 'curvature_sensor.py: trigger_code'), ('wavelengths', PO + 'poly_chrom_wfs.py: post_trigger')],
     note='The Fourier transform is an unknown fixed function and field interpolation (C21) and binning (toccd) are given arrays in proofs; pixel scale, '
          'pupil geometry, tilt response, the disc of the Zernike sensor and extended sources are tested on random cases.')
prop('C25', 'Estimators recover what the loop signals contain',
     'The demodulator gives, once per interval and per mode, the amplitude of the carrier in exactly the samples of that interval, blind to '
     'constants and linear in the signal. The optical gain follows the ratio of the demodulated signals, only when both are fresh, and never '
     'exceeds one. The gain optimiser takes measurement plus applied command as open loop signal, finds the gain of the grid of least residual '
     'power, moves the gains by the allowed increment, keeps the safety margin and the stable limit, follows the optical gain, keeps memory of '
     'past spectra with running mean, and hands the gains to the filter. An interactive integrator takes a fresh gain and a fresh reset at '
     'once, stale ones never. LIFT steps are weighted least squares of its image model and recover the aberration in nanometres. The spot '
     'monitor sums the subapertures, and model plus residual give the sum back.',
     ['inputs', 'histories', 'configurations'],
     'any signal and any history of fresh and stale inputs',
     'Tests use one carrier, one gain history and one image; wrong intervals, stale inputs and limits need longer histories.',
     [PO + x + '.py' for x in ('demodulator', 'optical_gain_estimator', 'gain_optimizer', 'dynamic_integrator', 'lift', 'spot_monitor')] + ['specula/lib/demodulate_signal.py'],
     [('demodulation', PO + 'demodulator.py: trigger_code'), ('optical gain', PO + 'optical_gain_estimator.py: trigger_code'),
      ('gain optimisation', PO + 'gain_optimizer.py: _optimize_gains, _optimize_single_mode'), ('phase retrieval', PO + 'lift.py: phaseEstimation')],
     note='Demodulation, power spectra, LIFT and the Moffat fit are exercised on random cases (bounded); update rules, intervals, pseudo open loop '
          'and the interactive integrator are proved.')
prop('C26', 'Pupils, influence functions and modal bases are what their parameters say',
     'A coordinate grid holds the pixel centres of its square. A pupil pixel is lit when its centre lies in the disc or square and outside the '
     'obstruction; centeronpixel moves the centre to the nearest corner on both axes; spider arms darken their strip only. Zernike j is '
     'Noll polynomial j, with its derivatives. The Zernike base has zero mean and unit deviation, each mode within Zernikes up to its own. Petals '
     'partition the pupil. Zonal functions are one at their actuator and zero at the others, with coupling of the neighbours; slaves are shared '
     'equally, or prolong planes exactly. Karhunen-Loeve modes are orthonormal, uncorrelated in von Karman turbulence and sorted by variance; Zernikes come first '
     'when asked. The MMSE reconstructor is (A\' N^-1 A + C^-1)^-1 A\' N^-1 however the covariances are given. Phase ramps shift an image by '
     'the pixels asked. Plate scale coefficients project the upper mirror on the ground one.',
     ['inputs', 'configurations'],
     'any grid size, centre, diameter and obstruction for grids and pupils; random sizes and parameters for the rest',
     'Tests compare a few sizes; parity, off-centre pupils, unequal axes and degenerate matrices need other parameters.',
     ['specula/lib/' + x + '.py' for x in ('make_xy', 'make_mask', 'mask', 'zernike_generator', 'compute_zern_ifunc', 'compute_petal_ifunc', 'compute_zonal_ifunc',
                                           'mmse_reconstructor', 'modal_base_generator', 'platescale_coeff', 'utils')],
     [('grid and pupil', 'specula/lib/make_xy.py: make_xy; specula/lib/make_mask.py: make_mask'), ('Zernikes', 'specula/lib/zernike_generator.py: getZernike, getDerivativeX'),
      ('zonal functions', 'specula/lib/compute_zonal_ifunc.py: compute_zonal_ifunc, apply_slaving'), ('modal base', 'specula/lib/modal_base_generator.py: make_modal_base_from_ifs_fft'),
      ('reconstructor', 'specula/lib/mmse_reconstructor.py: compute_mmse_reconstructor')],
     note='Grid, pupil mask and linear indices are proved; polynomials, bases and matrices are checked on random cases (bounded).')
prop('C27', 'Sources, photometry and link geometry follow their physics',
     'The photons of a magnitude are those of its band, surface and time; a bare wavelength uses the nearest band, and given values win over the '
     'table. A source lies at its coordinates plus their error, and its density is per square metre, second and nanometre. Air refractivity agrees '
     'with an independent formula, scales with density and treats each wavelength alone. Effective wind is the vector sum of wind and slewing; '
     'light times and point-ahead angle follow from heights and speed. Extended sources: points fill the disc or Gaussian with the asked spacing or rings, '
     'fluxes add to one, coefficients are the angles; layers add offset, share of flux and defocus; weak points are dropped; a new image '
     'replaces the old, cropped or padded about its centre; wrong parameters are refused. The noise of an elongated spot is '
     'that of its elongation seen from the launcher. Power loss in dB follows the flux.',
     ['inputs', 'configurations', 'histories'],
     'any magnitude, surface, time and zero point in every band; random parameters for the rest',
     'Tests use a few bands, shapes and directions; wrong quadrants, parity of crops and band choice need other values.',
     ['specula/lib/' + x + '.py' for x in ('n_phot', 'air_refraction', 'fsoc_lib', 'calc_noise_cov_elong', 'calc_spatialfrequency')]
     + ['specula/data_objects/source.py', PO + 'extended_source.py', PO + 'power_loss.py'],
     [('photons', 'specula/lib/n_phot.py: n_phot'), ('source', 'specula/data_objects/source.py: phot_density, x_coord'), ('extended source', PO + 'extended_source.py: compute, trigger'),
      ('refraction', 'specula/lib/air_refraction.py: get_refractive_index'), ('satellite link', 'specula/lib/fsoc_lib.py: calc_effective_wind_speed')],
     note='Photon balance and link timing are proved; shapes, refraction, wind and covariances are checked on random cases (bounded) against independent formulas.')
