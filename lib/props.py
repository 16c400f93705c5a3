"""The properties: text, anchors, how each is decided.  tools/gen.py writes properties.jsonl and MANIFEST.json from this."""

VG = ('static value-graph analysis of the type-checked MIR: the result is rewritten to a gated-SSA normal form over symbolic '
      'inputs and compared with the specification formula by algebraic normal-form equality')
PROOF = ('Every obligation is an equality of normal forms for all inputs (symbolic sizes, sites, fields, times, random numbers), '
         'floating point read as real arithmetic. Trusts rustc MIR, the value-graph engine and its library models. Where code '
         'leaves the analysed fragment the obligation is reported undecided, not passed silently.')
FLOW = ('Obligations over every path of the analysed functions (effects, their order, loop placement, arguments as value-graph '
        'terms). Trusts rustc MIR, the engine and its library models; a construct outside the fragment is reported undecided.')

FLOWT = ('static effect analysis of the type-checked MIR: all effects on all paths with loop trip counts, path conditions and '
         'arguments as symbolic terms, compared with the specified protocol by algebraic normal-form equality')


def p(id, title, statement, over, text, why, files, mechanism, technique=VG, level='proof', note=PROOF, assumptions=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=m, where=', '.join(files)) for m in mechanism]), technique=technique, level=level, note=note,
                assumptions=list(assumptions))


def n(id, title, statement, over, text, why, files, mechanism, reason):
    return dict(p(id, title, statement, over, text, why, files, mechanism), reason=reason)


REAL = 'floating-point arithmetic is read as exact real arithmetic'
EVEN = 'the chain has an even number of sites (the even/odd splitting is only defined there)'
UNITS = 'spins handed to the analysed function have unit length (established by P01)'

SP, CH, LA, OB, MA, CF, WR = 'src/spin.rs', 'src/spinchain.rs', 'src/spinchain_langevin.rs', 'src/obs.rs', 'src/main.rs', 'src/config.rs', 'src/writers.rs'

PROPERTIES = [
    p('P01', 'Every spin is a unit vector',
      'Every way of creating or changing a spin leaves it with length one: constructors, setting its angles, precession in any field '
      'for any time (also the zero field), and Monte-Carlo proposals. Nothing else in the program stores into a spin direction.',
      ['inputs', 'histories'], 'all inputs of every spin constructor and mutator, all random numbers of every Monte-Carlo proposal',
      'The tests look at a few directions and angles; one bad field (for instance zero) turns a spin into NaN and then the whole chain.',
      [SP, CH, LA], ['Spin constructors', 'Spin::set_angles', 'Spin::rotate', 'stores into Spin.dir in the Metropolis updates'],
      VG + '; census of MIR stores into the spin direction', assumptions=[REAL]),
    p('P02', 'A spin precesses about its field by exactly the field strength times the time',
      'Moving a spin in a constant field for a time rotates it about the field direction by the angle |field| times the time, with the '
      'sense of dS/dt = S x field, preserving its component along the field. In zero field the spin does not move.',
      ['inputs'], 'all unit spins, all fields including zero, all times',
      'Four sample rotations in coordinate planes are tested; the general formula, its sense off those planes and zero field are not.',
      [SP], ['Spin::rotate'], assumptions=[REAL, UNITS]),
    p('P03', 'Angles and Cartesian components of a spin describe the same direction',
      'Building a spin from the polar angles read off any spin gives that spin back, in every octant and on the coordinate planes and '
      'axes. Setting angles and constructing from angles agree.',
      ['inputs'], 'all unit spins, all angles',
      'Unit tests check one direction in one octant; branch errors of the azimuth show up only for other signs of the components.',
      [SP], ['Spin::theta', 'Spin::phi', 'Spin::new_from_angles', 'Spin::set_angles'], assumptions=[REAL, UNITS]),
    p('P04', 'Initial states are drawn with the nearest-neighbour Boltzmann weight',
      'A new chain is grown site by site: each spin is the previous one turned by an angle whose cosine is drawn from the Boltzmann '
      'weight of one bond at the configured inverse temperature, about an axis uniform on the sphere, both with fresh random numbers (at infinite temperature: flat in the cosine; at every finite one a number). '
      'The orthogonalised axis and the turn itself are computed exactly.',
      ['inputs', 'configurations'], 'all random numbers, all inverse temperatures including zero (overflow: from 1e-3 to 1e9 of either sign), all chain lengths',
      'The existing test compares one averaged energy with a tolerance, which does not see a skewed axis, a repeated random number or '
      'an error at the ends of the distribution.',
      [CH, LA, SP], ['SpinChain::new', 'SpinChainLangevin::new', 'Spin::rot_perp', 'Spin::gs'],
      assumptions=[REAL, 'the random generator yields independent uniform/Gaussian numbers']),
    p('P05', 'Dynamics and Monte Carlo never change the Hamiltonian or the settings',
      'A time step or a Monte-Carlo move changes spins only (a time step also the clock): couplings, local fields, sizes and settings of '
      'a chain stay what they were at creation. A Monte-Carlo move leaves the clock alone.',
      ['inputs', 'histories'], 'all states, all sites, all settings, every public step of both chain types',
      'No test compares couplings or settings before and after a step.',
      [CH, LA], ['update', 'update_no_field', 'metropolis_update*'], assumptions=[REAL]),
    p('P06', 'A time step is the second-order even/odd splitting in the field at mid-step',
      'One step of the isolated chain rotates even sites for half a step, odd sites for a full step, even sites for half a step, each in '
      'the instantaneous field of its neighbours (periodic) minus static and, on the driven sites only, driving field taken at the '
      'middle of the step. The clock advances by one step.',
      ['inputs', 'configurations'], 'all even chain lengths, subsystem sizes, sites, couplings, fields, times and drive types',
      'The tests check one frozen-field case; site ordering, wrap-around bond, half steps and drive phase all look right on average.',
      [CH], ['SpinChain::update', 'even_omega', 'odd_omega', 'rotate_even', 'rotate_odd', 'h_ext'], assumptions=[REAL, EVEN, UNITS]),
    p('P07', 'The response step evolves with the drive and couplings but without static fields',
      'The step used for response functions is the same splitting as the ordinary step with every static local field left out, the drive '
      'still acting on the driven sites only.',
      ['inputs', 'configurations'], 'all even chain lengths, sizes, sites, couplings, times and drive types',
      'No test runs this step.', [CH], ['SpinChain::update_no_field'], assumptions=[REAL, EVEN, UNITS]),
    p('P08', 'A Langevin step couples exactly the two end spins to a thermal bath',
      'One Langevin step is the even/odd/even splitting of an open chain whose first and last spins, and no others, also feel damping '
      'and a Gaussian random field of variance 2 gamma dt / beta per component, held fixed during the step. The six random numbers are '
      'independent and fresh in every step, and the clock advances by one step.',
      ['inputs', 'configurations'], 'all even chain lengths, sites, couplings, temperatures, damping constants, random numbers and drive types',
      'The tests run a handful of steps with the bath off; noise amplitude and the end-site fields are never checked.',
      [LA], ['SpinChainLangevin::update', 'even_omega', 'odd_omega', 'cross'], assumptions=[REAL, EVEN, UNITS, 'the drive enters a Langevin step at the end of the step, as in the current code; the documentation leaves the instant open']),
    p('P09', 'Reported total energy is the documented Hamiltonian per site',
      'The total energy is -sum S J S over all bonds including the periodic one, plus the static field energy of every site, plus the '
      'driving-field energy of the driven sites at the current time, divided by the number of sites.',
      ['inputs', 'configurations'], 'all states, sizes, couplings, fields, times and drive types, both chain types',
      'A unit test evaluates one aligned state without disorder, where misplaced bonds or fields do not show.',
      [CH, LA], ['total_energy', 'total_energy2'], assumptions=[REAL]),
    p('P10', 'Monte-Carlo energies are the static Hamiltonian of chain or subsystem ring',
      'The energies used to fit temperatures contain no drive: for the whole chain the periodic Hamiltonian per site, for the subsystem '
      'the Hamiltonian of its sites closed into a ring, per site.',
      ['inputs', 'configurations'], 'all states, sizes, couplings and fields',
      'No test evaluates these energies.', [CH], ['mc_total_energy', 'mc_system_energy'], assumptions=[REAL]),
    p('P11', 'Subsystem energy counts interior bonds and fields of the driven sites only',
      'The subsystem energy sums, over all but the last driven site, the bond to the next site and the energy in static plus driving '
      'field, per bond; no bond across the boundary of the subsystem enters.',
      ['inputs', 'configurations'], 'all states, sizes, couplings, fields, times and drive types, both chain types',
      'No test uses a subsystem smaller than the chain with disorder.', [CH, LA], ['system_energy'], assumptions=[REAL]),
    p('P13', 'Magnetisations are plain sums over the driven sites and over the chain',
      'The subsystem magnetisation is the sum of the spins of the driven sites, the total magnetisation that over all sites, component by component.',
      ['inputs'], 'all states and sizes, both chain types', 'No test checks them.', [CH, LA], ['m', 'm_tot'], assumptions=[REAL]),
    p('P14', 'Monte-Carlo moves pick a site uniformly and accept with min(1, exp(-beta dE))',
      'Every Metropolis move draws one site uniformly from the sampled region, proposes a direction uniform on the sphere independent of '
      'the old one, accepts it with probability min(1, exp(-beta dE)) for its energy change, and otherwise leaves the chain as it was.',
      ['inputs', 'histories'], 'all states, all random numbers, all temperatures, all seven samplers',
      'Acceptance errors bias the sampled distribution a little; the one test checks that a cold chain orders.',
      [CH, LA], ['metropolis_update', 'metropolis_update_maglab', 'metropolis_update_rot_magnus', 'metropolis_update_mag_full', 'metropolis_update_magnus'],
      assumptions=[REAL, 'random numbers are independent and uniform']),
    p('P15', 'Monte-Carlo energy changes are differences of one common energy function',
      'The energy change by which a Monte-Carlo move is accepted is a difference of the same function of the trial and of the old spin, and '
      'zero if the two coincide. Moves on neighbouring sites derive from one common energy, so that detailed balance holds for some distribution.',
      ['inputs', 'configurations'], 'all states, all sites, all proposals, all couplings, fields and drive periods, all seven samplers',
      'Breaking detailed balance still gives runs that look thermal; no test computes the difference.',
      [CH, LA], ['metropolis_update*'], assumptions=[REAL, UNITS]),
    p('P16', 'Each Monte-Carlo sampler uses the energy of its documented ensemble',
      'The energy change of a move is that of the ensemble the sampler is for: exchange energy and static fields (bath sampler: exchange), '
      'or exchange with the laboratory-frame, rotating-frame, first-order or second-order Magnus correction, each with its prefactor in '
      'the drive frequency and its own neighbours, couplings and fields. Exchange is periodic; driven-site terms apply to driven sites only.',
      ['inputs', 'configurations'], 'all states, sites, proposals, couplings, fields and drive periods, all seven samplers',
      'A wrong neighbour or prefactor still yields a converging Monte-Carlo run; no test compares with the energy.',
      [CH, LA], ['metropolis_update*'], assumptions=[REAL, UNITS]),
    p('P17', 'A new chain realises the configured couplings, fields, sizes and clock',
      'Couplings are (1, 1, lambda) plus independent Gaussian disorder on every component of every site; local fields are the global field '
      'plus, on driven sites only, the subsystem field, plus independent Gaussian disorder. The chain has the configured sizes and '
      'settings and its clock starts at minus the relaxation time.',
      ['configurations', 'inputs'], 'all configurations, all sites, all random numbers, both chain types',
      'Tests use the default configuration without fields and hardly any disorder.',
      [CH, LA], ['SpinChain::new', 'SpinChainLangevin::new'], assumptions=[REAL, 'the random generator yields independent Gaussian numbers']),
    p('P18', 'The spectrum is the Fourier power of the spins ordered by wave number',
      'Entry n of the spectrum is the squared modulus of the Fourier transform of the spin components at wave number 2 pi n/L - pi, summed '
      'over x, y and z.',
      ['inputs'], 'all states, all even chain lengths', 'No test calls it.', [CH], ['SpinChain::energy_spectrum'],
      assumptions=[REAL, EVEN, 'rustfft computes the discrete Fourier transform']),
    p('P19', 'The logged boundary term is the drift of the subsystem energy',
      'The boundary diagnostic of the Langevin chain equals the Fokker-Planck drift of its energy: fluctuation and dissipation of the two '
      'end spins in their full local field, plus the time derivative of the drive times the magnetisation. The plain chain has the '
      'undriven part with unit damping.',
      ['inputs', 'configurations'], 'all states, sizes, couplings, fields, times and drive types', 'No test calls it.', [LA, CH],
      ['SpinChainLangevin::boundary_term', 'SpinChain::boundary_term', 'h_extp'], assumptions=[REAL]),
    p('P20', 'A run thermalises once and then steps the clock until the end time',
      'Every run makes one chain, brings it to the bath temperature by 2e7 Monte-Carlo moves, and then makes exactly one step per time '
      'step while the clock is below t. Response runs start at -t and are driven while the clock is negative, free afterwards. Settings '
      'do not change on the way.',
      ['histories', 'configurations'], 'all configurations, all numbers of runs, both chain types',
      'No test runs a simulation mode; a skipped or doubled step changes the results only slightly.',
      [MA, OB], ['run_sim', 'run_sim_response', 'run_ext', 'run_langevin'], technique=FLOWT, note=FLOW, assumptions=[REAL]),
    p('P21', 'A log shows the start, then every step, or with strob every full period',
      'Each run logs the state at the start once, then the state after every step, or with strob exactly those whose number of time '
      'steps is a multiple of the steps per period; never twice and never stale. The kind of line is that of the mode.',
      ['histories', 'configurations'], 'all configurations, all steps of a run',
      'Stroboscopic logging by floating-point time fails only for some dt and tau after many periods.',
      [OB], ['run_sim', 'run_sim_response', 'run_ext', 'run_langevin'], technique=FLOWT, note=FLOW, assumptions=[REAL]),
    p('P22', 'Runs write logs offset, offset+1, ... and later invocations continue there',
      'Run number i of a mode writes the log numbered offset+i and no other. After all runs have finished the offset, in memory and in '
      'config.toml, is the old one plus the number of runs, so that neither a further mode of the same invocation nor a later '
      'invocation overwrites a log.',
      ['histories', 'configurations'], 'all numbers of runs, all offsets, all run modes',
      'Needs several invocations in a row; no test starts one.', [OB, CH, LA],
      ['run_sim', 'run_sim_response', 'run_ext', 'run_langevin', 'run_tau', 'run_dyn_profile', 'advance_offset'], technique=FLOWT, note=FLOW),
    p('P23', 'The program never changes a setting in config.toml except the log offset',
      'Command-line overrides and what a mode sets for itself stay inside the invocation: whatever a mode writes to config.toml is the '
      'configuration stored there with only the offset changed. Modes which write no logs do not write the file.',
      ['histories', 'configurations'], 'all modes, all overrides, all configurations',
      'No test looks at the configuration file after a run with overrides.', [OB], ['advance_offset', 'all modes'], technique=FLOWT, note=FLOW),
    p('P24', 'A log line is the documented observables of the current state, in order',
      'A log line holds, in order, the clock, energies, subsystem magnetisation per driven site, total z magnetisation per site and the '
      'diagnostics of the chain type; the spatially resolved log holds one line with energy and spin for each interior site, then a blank one. '
      'A line is written if and only if the chain has a log file, to that file.',
      ['inputs', 'configurations'], 'all states, sizes, couplings, fields, times, drive types, both chain types',
      'No test reads a log.', [CH, LA], ['log', 'log_ext'], technique=FLOWT, note=FLOW, assumptions=[REAL]),
    p('P25', 'A record of a sampling mode is the observables of the state sampled for it',
      'Every record of the histogram, trajectory and Monte-Carlo modes is taken after its own fixed number of moves or steps of the '
      'kind of the mode, lists the documented observables of that very state in order on a line of its own, and there are as many as requested, '
      'in the documented file. Between records the clock of a chain counts its time steps from minus the relaxation time and stands still under Monte-Carlo moves.',
      ['histories', 'configurations'], 'all numbers of samples, all configurations, all sampling modes',
      'No test runs a sampling mode; stale or shifted observables still look plausible.',
      [OB], ['gen_hist', 'gen_hist_dynamics', 'gen_hist_magnus', 'gen_single_traj', 'run_mc', 'run_mc_magnus'], technique=FLOWT, note=FLOW,
      assumptions=[REAL]),
    p('P26', 'Background writers lose no record and the program ends only after them',
      'Every record sent to a background writer is written to the file in full, exactly once and on a line of its own. The program '
      'closes the channel of a writer after its last job has one and waits until the writer is done, so no record is lost at exit.',
      ['histories', 'schedules'], 'all interleavings of jobs and writers, all numbers of records, all six modes with background writers',
      'A record is lost only if the process exits before the writer has caught up, which no test can force.',
      [OB], ['gen_hist_dynamics', 'run_tau', 'run_mc', 'run_mc_magnus', 'run_mc_profile', 'run_dyn_profile'], technique=FLOWT, note=FLOW),
    p('P27', 'A profile is the mean over all records of energy and spin of each site',
      'A profile record of a site holds half the energy of each of its two bonds and its spin in the state sampled, one for every site. '
      'The profile file holds for every site one line with the means over all records received for it; dynamical profiles are taken at '
      '500, 1000, ... 4000 periods, each in its own file.',
      ['histories', 'configurations'], 'all sizes, couplings, states, numbers of threads and points, both profile modes',
      'No test runs a profile; an average over too few records is still a plausible profile.',
      [OB], ['run_mc_profile', 'run_dyn_profile', 'profile_in_bg'], technique=FLOWT, note=FLOW, assumptions=[REAL]),
    p('P28', 'The average over logs is the mean over the logs which reach that line',
      'Line i of avg.dat is, column by column, the mean of the i-th data lines of all files named {file}*.dat which have one. Data lines '
      'are those which do not begin with #.',
      ['histories', 'inputs'], 'all numbers of logs, all lengths (also different ones) and contents of logs with the same number of columns',
      'Averages only differ from a plausible curve if logs have different lengths or no header; no test averages anything.',
      [OB], ['average', 'data_lines'], technique=FLOWT + '; the loops over files and lines by induction over their accumulators', note=FLOW,
      assumptions=[REAL, 'all data lines of the logs have the same number of columns']),
    p('P29', 'The two-point average is the mean of the columns times those at time zero',
      'Line i of two-point.dat is the mean, over the logs which have an i-th data line, of each column times the same column of the '
      'same log at t=0. The first column, the time, is not multiplied.',
      ['histories', 'inputs'], 'all numbers of logs, all lengths and contents of logs which have a line at t=0',
      'No test computes one; a product with another column or another log is still a smooth curve.',
      [OB], ['two_point_average', 'data_lines'], technique=FLOWT + '; the loops over files and lines by induction over their accumulators', note=FLOW,
      assumptions=[REAL, 'all data lines of the logs have the same number of columns', 'every log has a line at t=0']),
    p('P30', 'Settings have their documented names and defaults in config.toml',
      'A setting left out of config.toml has its documented default. Each documented key, and drive type, in the file sets just its '
      'setting, and whatever the program writes is read back as what it was.',
      ['inputs'], 'all documented keys (23) and drive types (5), all values',
      'No test reads a configuration; a key under another name is ignored without a word.',
      [CF], ['Config', 'DriveType', 'Default for Config'],
      technique='static evaluation of the reader and writer serde derives, in the type-checked MIR, key by key over symbolic values', note=FLOW),
    p('P31', 'The defaults are used only if there is no configuration file',
      'If the configuration file can be read its settings are used. Only if it does not exist are the defaults used and written to '
      'config.toml; a file which cannot be read or is invalid is neither replaced nor ignored.',
      ['fault_sequences', 'inputs'], 'all outcomes of reading and parsing the file, both chain types',
      'Needs an unreadable or invalid file; losing the settings of a user is not visible in any test.',
      [CH, LA], ['SpinChain::read_config', 'SpinChainLangevin::read_config'], technique=FLOWT, note=FLOW),
    p('P32', 'Each option runs exactly its mode with the overrides of the command line',
      'A mode runs if and only if its option is given, and the default simulation exactly when no mode is. Period and inverse '
      'temperature of the command line replace those of config.toml before any mode starts, the other settings of a mode asked for '
      'alone are those stored (a Langevin chain has ssize sites), '
      'and the value given to a mode, or else its documented default, reaches that mode.',
      ['inputs', 'configurations'], 'all combinations of options, all option values, all stored configurations',
      'No test starts the program; an override which comes too late changes the numbers, not the form, of the output.',
      [MA], ['main'], technique=FLOWT, note=FLOW),
    p('P33', 'The threads of a Monte-Carlo mode together take mc_points records',
      'The shares of the threads add up to mc_points for every number of threads, every share has a chain of its own, and one record is '
      'sent for every point of a share.',
      ['configurations'], 'all positive mc_points and threads, divisible or not, the three Monte-Carlo modes',
      'Depends on the remainder of the division of two settings; no test runs these modes.',
      [OB], ['run_mc', 'run_mc_magnus', 'run_mc_profile'], technique=FLOWT, note=FLOW),
    p('P34', 'A fitted temperature is the bisection of the sampled energy on the target energy',
      'Each fit bisects on the inverse temperature between its documented lower bound and 5: the midpoint replaces the lower bound if the '
      'energy sampled there exceeds the target energy density and the upper bound otherwise, until the bracket is at most 0.001 wide. '
      'The result is the midpoint of the last bracket, and every estimate uses the ensemble of the fit.',
      ['inputs', 'histories'], 'all estimates the sampler may return, all target energies, all five fits',
      'A fit takes minutes; wrong replacement of a bound still ends at some temperature.',
      [OB], ['find_beta', 'find_beta2', 'find_betah', 'find_beta_rot', 'find_beta_maglab'], technique=FLOWT, note=FLOW, assumptions=[REAL]),
    p('P35', 'Sampled averages are means over independent samples at the temperature asked for',
      'An energy or magnetisation estimate is the mean, over the documented number of samples each preceded by the documented number of '
      'Monte-Carlo moves of its ensemble, of the observable in the state sampled, at the inverse temperature asked for. '
      'The trajectory mean is the mean of the subsystem energy once per period after the first 99 of 1000 periods of every run, whose clock starts at minus the relaxation time.',
      ['histories', 'configurations'], 'all configurations, temperatures and random numbers, all estimators',
      'No test calls an estimator; a wrong divisor, stale state or wrong number of moves still gives plausible energies.',
      [OB], ['estim_e', 'estim_e2', 'estim_eh', 'estim_e_rot', 'estim_e_maglab', 'get_obs', 'get_obsh', 'get_obs_rot', 'get_obs_maglab', 'trajectory_mean_e'],
      technique=FLOWT, note=FLOW, assumptions=[REAL]),
    p('P38', 'A fitting mode fits in its frame, samples at the fit and appends one record',
      'Each fitting mode sets the fields, period and target energy of its ensemble from its value, fits the inverse temperature with '
      'these, samples with the fitted one, and appends one line with the setting and the results in documented order to its documented '
      'file, keeping earlier lines.',
      ['inputs', 'configurations'], 'all option values, all overrides, all stored configurations, all seven fitting modes',
      'No test runs a fitting mode, which takes many minutes.',
      [MA], ['main'], technique=FLOWT, note=FLOW, assumptions=[REAL]),
    p('P39', 'Every documented command-line option exists and takes its documented value',
      'Each documented option is accepted, by itself and with any other, under its documented long and short name and stored apart from '
      'every other one. Flags take no value, optional values may be left out, the periods of --n-steps are separated by commas, and energies may be negative.',
      ['inputs'], 'all documented options', 'No test parses a command line.', [MA], ['Args'],
      technique='static evaluation of the option declarations which clap derives, in the MIR of the program, compared with the documented '
                'table of options', note=FLOW),
    p('P36', 'Only modes which keep logs create log files, and only if logging is on',
      'Every chain of a fit, estimate, histogram, trajectory or Monte-Carlo mode is created with logging off. The chains of the '
      'simulation modes are created with the logging setting of the user.',
      ['configurations'], 'all configurations, every chain any mode creates (17 quiet functions, 6 modes with logs)',
      'No test starts a mode; a stray log overwrites the log of an earlier run.',
      [OB], ['every mode and estimator'], technique=FLOWT, note=FLOW),
    p('P37', 'A run of --n-steps lasts n periods of its own period and gives one record',
      'For every period given one chain runs with that period, a step of a hundredth of it (0.1 from 10 on) and n periods as final time, '
      'all else as configured, after 2e7 Metropolis moves. The state at the start is logged once, and one record with period, clock, '
      'energies and magnetisation of the final state goes to evt<n>.dat.',
      ['inputs', 'configurations'], 'all lists of periods, all numbers of periods, all configurations',
      'No test runs this mode; a period or step taken from the configuration instead gives a plausible record.',
      [OB], ['run_tau'], technique=FLOWT, note=FLOW, assumptions=[REAL]),
    p('P40', 'The dynamical histogram starts from the microcanonical state asked for',
      'Before the dynamical histogram is taken, Monte-Carlo moves go on until the energy density is within 0.005 of the target and each '
      'component of the magnetisation per site within 0.003 of zero. The dynamics starts from that very state.',
      ['histories', 'configurations'], 'all histories of Monte-Carlo moves, all targets and sizes',
      'The search takes long and its end depends on random moves; no test runs it.',
      [OB], ['gen_hist'], technique=FLOWT, note=FLOW, assumptions=[REAL]),
    p('P41', 'A mode ends only after all its jobs have finished',
      'Every mode which hands its runs to a pool of threads waits, in every case, until each job has made its last step, log line and '
      'record before it returns.',
      ['schedules'], 'all interleavings of the jobs with the main thread, all eleven modes which use a pool',
      'A job is cut short only if the process exits first, which no test can force.',
      [OB], ['run_sim', 'run_sim_response', 'run_ext', 'run_langevin', 'run_tau', 'run_dyn_profile', 'gen_hist_dynamics',
             'trajectory_mean_e', 'run_mc', 'run_mc_magnus', 'run_mc_profile'], technique=FLOWT, note=FLOW),
    p('P42', 'Outputs go to their documented files, kept or started anew as documented',
      'Samples and records are added at the end of their documented file, which is created if missing; profiles, averages and logs start '
      'anew. A chain with logging on has exactly one log, named after the configured prefix and the number of the chain.',
      ['histories', 'configurations'], 'all configurations, all modes which write files, both chain types',
      'Needs two invocations in a row; no test starts one.',
      [OB, CH, LA], ['all modes', 'SpinChain::new', 'SpinChainLangevin::new'], technique=FLOWT, note=FLOW),
    p('P12', 'The start temperature is that of the configured energy density',
      'Without --beta a chain starts at the inverse temperature which solves coth(beta) - 1/beta = -ednsty: it is iterated from 20 by '
      'beta -> 1/(ednsty + coth beta) until two successive values agree to 0.01, and the last one is used. Both chain types do the same.',
      ['inputs'], 'all energy densities, all numbers of iterations',
      'A different sequence or stop is plausible for the one density a test samples; no test calls it.',
      [SP, LA], ['SpinChain::solve_beta', 'SpinChainLangevin::solve_beta'], assumptions=[REAL]),
    p('P45', 'The energy measured for a fit is the one its sampler draws from',
      'For every ensemble, plain, lab-frame Magnus and rotating-frame Magnus, the energy density measured after the moves is the energy '
      'of the ring per site whose change on replacing one spin is the change the sampler accepts with. Bonds and triples count once.',
      ['inputs', 'configurations'], 'all chains of at least 6 sites, all spins, couplings, fields, periods and subsystem sizes',
      'A fit to a slightly different energy converges as well, to a wrong temperature; no test compares the two.',
      [CH], ['mc_total_energy', 'mc_system_energy', 'mc_system_energy_maglab', 'mc_system_energy_rot', 'metropolis_update',
             'metropolis_update_maglab', 'metropolis_update_rot_magnus'], assumptions=[REAL, EVEN]),
    p('P44', 'A failed output is never passed over in silence',
      'The result of every operation which produces output (creating, opening or writing a file, handing a line to a writer, joining a '
      'writer) is checked: on failure the thread panics, exits or returns the error to a caller which does. No run goes on after losing '
      'a line or file.',
      ['fault_sequences'], 'all failures of all output operations (each may fail at every call), in the library and the program',
      'Tests do not make a write, open or send fail; a discarded result goes unseen until a disk is full.',
      [OB, CH, LA, CF, WR, MA], ['every output operation'],
      technique='typestate analysis of every Result of an output operation, and of buffered writers, over the type-checked MIR',
      note=FLOW),
    p('P46', 'Random numbers are fresh in every run and every invocation',
      'Every random number is drawn from a generator seeded by the operating system, the generator of the drawing thread. None comes from '
      'a fixed, configured or derived seed. Parallel runs share no generator and no mutable chain, through globals, locks or pointers.',
      ['schedules', 'histories'], 'all draws, all generators, all globals and all jobs handed to threads',
      'Repeated invocations give the same samples only if compared with each other, which no test does.',
      [CH, LA, SP, OB], ['every random draw', 'every ThreadPool::execute and thread::spawn'],
      technique='census of generator types, seeds (backward slice through the call graph), globals and captures of jobs over the '
                'type-checked MIR', note=FLOW),
    p('P47', 'No valid size makes an operation fail',
      'For every even number of sites from 4 on and every number of driven sites from 2 up to it, every operation on a chain and every '
      'sampling or time-evolution mode works without a panic. Every index is within its array, no difference of unsigned numbers is '
      'negative and no divisor of whole numbers is zero.',
      ['inputs', 'configurations'], 'all sizes, all drives, all sites drawn, all iterations',
      'Tests run chains of one or two sizes; a failing index needs a subsystem which fills the chain, or a particular site.',
      [CH, LA, OB], ['every method of SpinChain and SpinChainLangevin', 'modes in obs.rs'],
      technique='bounds and range checks discharged from loop bounds, drawn ranges and path conditions on gated value graphs of the '
                'type-checked MIR',
      assumptions=[EVEN, 'the field vectors of the configuration have three components',
                   'the configuration asks for at least one thread and one record, and the period is a whole number of time steps',
                   'counts and sizes are far below the largest number of their type',
                   'modes which read log files, and the writer of profiles, are not covered']),
    p('P48', 'A time step without a changing drive conserves the total energy',
      'With no drive, or with a static field, every time step of the chain leaves the reported total energy as it was (but for rounding), for every '
      'state, coupling, field and step length.',
      ['inputs', 'histories'], 'all states, sizes, couplings, fields and step lengths',
      'The error of a wrong field or of spins turned together is of the order of the time step; a test with a tolerance passes.',
      [CH], ['SpinChain::update', 'SpinChain::total_energy', 'SpinChain::total_energy2'], assumptions=[REAL, EVEN]),
    p('P43', 'The description of the configuration is valid and tells the true defaults',
      '--config-desc prints a valid configuration file. It names every setting under the key which is read for it, with the default '
      'which is really used, and every kind of drive it offers can be read.',
      ['inputs'], 'all settings', 'No test looks at the description; it was empty.',
      [CF, MA], ['CS', 'print_config_description', 'Default for Config'],
      technique='static evaluation of the printed constant and of the reader serde derives, in the type-checked MIR', note=FLOW),
]

# properties of the system this family cannot decide here
NOT_APPLICABLE = [
    n('P49', 'Thermalisation reaches equilibrium before anything is measured',
      'After the Monte-Carlo moves made before a run or a record the chain is a sample of the ensemble asked for, whatever it started from.',
      ['histories', 'inputs'], 'all temperatures, sizes, couplings, fields and starting states',
      'How many moves are enough depends on the couplings and the temperature; a test at one temperature settles one.',
      [CH, OB], ['run_sim', 'metropolis_update', 'the sampling modes'],
      'The mixing time of the chain at the configured temperature is a runtime quantity; no static argument in reach bounds it. Decided '
      'instead: the moves leave the ensemble invariant (P14 to P16) and are made before anything is recorded (P20, P25, P35).'),
    n('P50', 'Fitted temperatures and sampled averages are accurate',
      'The effective temperature a fit ends with, and the averages estimated at it, are within their statistical error of the exact ones.',
      ['inputs', 'histories'], 'all target energies, sizes and sample counts',
      'Samples scatter; a test can only fail with some probability.',
      [OB], ['find_beta and its variants', 'estim_e and its variants', 'get_obs and its variants'],
      'The spread and correlation of samples are runtime quantities. Decided instead: the estimators are means over the right records '
      '(P35) of the energy their sampler draws from (P45), and the fit is the bisection on it (P34).'),
    n('P51', 'Rounding never builds up over long runs',
      'Over the 1e6 and more steps of a run, spins stay unit vectors, the clock stays a multiple of the time step and the energy stays '
      'where it is, up to a small rounding error.',
      ['histories', 'inputs'], 'all run lengths and time steps',
      'Tests make a few steps.',
      [SP, CH], ['Spin::rotate', 'SpinChain::update'],
      'The analysis reads floating-point operations as those of the real numbers; accumulated rounding of library sine, cosine and square '
      'root over a number of steps known only at run time is out of its reach. Decided instead, in the reals: P01, P02, P06 and P48.'),
]
