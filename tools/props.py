"""Property and manifest metadata (single source; see gen.py)."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, q, why, files, mech, observe, technique,
      note, level="exploration"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      q=q, why=why, files=files, mech=mech, observe=observe,
                      technique=technique, note=note, level=level))


P("C13", "Core collapse leaves the remnant its prescription says",
  "For every progenitor and every supported combination of core-collapse "
  "mechanism/engine, electron-capture and pair-instability prescription, "
  "envelope/neutrino/maximum-NS-mass option, the collapse yields the "
  "supernova type, fallback fraction, remnant type (WD/NS/BH/none), "
  "gravitational mass, spin and radius which the published prescription "
  "defines, including exactly at its mass boundaries. "
  "Pre-computed remnant properties of the grids are used when and only when "
  "they are consistent with the collapsing star, and a full "
  "pair-instability supernova leaves a massless remnant.",
  ["inputs", "configurations"],
  "all progenitor masses, core masses, metallicities, angular momenta and "
  "all documented option combinations",
  "No test runs the supernova step at all; the prescriptions are piecewise "
  "in several masses, so boundaries and option combinations are what a "
  "handful of samples misses.",
  ["posydon/binary_evol/SN/step_SN.py", "posydon/grids/SN_MODELS.py"],
  [("remnant mass per mechanism", "step_SN.py:compute_m_rembar, "
    "Patton20_corecollapse, Maltsev25_corecollapse, Sukhbold16/Couch20"),
   ("pair instability", "step_SN.py:PISN_prescription"),
   ("collapse", "step_SN.py:collapse_star")],
  ["the star object after a collapse"],
  "runtime monitor with an independent reference model of the prescriptions",
  "Every generated collapse is compared with an independent restatement of "
  "the prescription, dense at boundaries; engine tables are synthetic files "
  "of the documented format.")

P("C14", "Supernova kicks obey two-body dynamics",
  "For every pre-explosion orbit, mass loss and natal kick, the binary is "
  "disrupted exactly when the orbit after the explosion is unbound, and "
  "otherwise its separation, eccentricity, period, systemic velocity and "
  "spin-orbit tilts are those of the two-body problem (also for a second "
  "explosion, for white-dwarf formation and with kicks switched off, where "
  "the orbit widens inversely with the total mass). "
  "Imposed kicks and angles are used and kept as given; unimposed ones are "
  "drawn isotropically with uniform mean anomaly and with the configured "
  "velocity distribution and normalisation of the remnant type. "
  "A binary which is already disrupted, merged or single never regains an "
  "orbit, and a double compact object gets its gravitational-wave inspiral "
  "time.",
  ["inputs", "histories", "configurations"],
  "all masses, separations, eccentricities, mean anomalies, kick vectors, "
  "either star first, one or two explosions",
  "There is no unit test of the kick; the outcome is a continuous function "
  "of nine inputs with a boundary (bound/unbound) and degenerate orbits "
  "where rounding decides.",
  ["posydon/binary_evol/SN/step_SN.py"],
  [("orbit after the kick", "step_SN.py:orbital_kick"),
   ("kick draws", "step_SN.py:generate_kick"),
   ("combined tilt", "step_SN.py:get_combined_tilt")],
  ["the binary and both stars after the supernova step"],
  "runtime monitor with a vector two-body oracle and distribution tests",
  "Random and boundary orbits through the real step against an independent "
  "vector solution; draws tested with Kolmogorov-Smirnov at p<1e-6.")

P("C16", "Compact binaries inspiral by gravitational waves as Peters says",
  "Two compact objects on any orbit reach contact (separation equal to the "
  "sum of their radii, circular) exactly when the Peters (1964) inspiral "
  "takes less than the remaining simulation time, and at that time; "
  "otherwise they stop at the time limit on the orbit the inspiral has "
  "reached, with period and separation obeying Kepler and every recorded "
  "intermediate orbit on the same trajectory. "
  "The published merger times from separation or period agree with that "
  "inspiral, and masses, types and systemic velocity do not change.",
  ["inputs", "histories"],
  "all pairs of BH/NS/WD, masses, separations, eccentricities, time limits "
  "and recording options",
  "No test evolves a compact binary; contact is an event located in a stiff "
  "integration whose difficulty depends on the orbit.",
  ["posydon/binary_evol/DT/double_CO.py",
   "posydon/utils/common_functions.py"],
  [("inspiral", "double_CO.py:DoubleCO.__call__"),
   ("merger time", "common_functions.py:"
    "inspiral_timescale_from_separation"),
   ("radii", "common_functions.py:CO_radius")],
  ["binary time, orbit, state, event and histories after the step"],
  "runtime monitor with the closed Peters solution as oracle",
  "Random and extreme orbits through the real step against quadrature of "
  "the Peters equations, to a relative 1e-5 in time.")

P("C17", "Detached binaries follow the published torques until an event",
  "For every detached binary the rates of change of separation, eccentricity "
  "and both spins are the sum of the enabled effects (tides, gravitational "
  "radiation, magnetic braking, wind mass loss, stellar structure) with "
  "their published formulas, symmetric in the two stars, and a switched-off "
  "effect contributes nothing. "
  "A detached step follows these rates along the stellar tracks, stops at "
  "the first of Roche-lobe overflow, end of life of a star or the time "
  "limit, never passes it, and reports the matching state and event. "
  "Times recorded in the histories increase strictly, the times asked for "
  "are there, and in every row each star's quantities are those of its track "
  "at that time (compact objects gain the wind they accrete), the orbit and "
  "spins those of the integration, and the star states follow from the row. "
  "A star reaching its end of life carries the final values and profile.",
  ["inputs", "configurations", "histories"],
  "all masses, orbits, spins, evolutionary phases, on/off switches, "
  "braking and tide prescriptions, time steps",
  "No test calls the detached step or its torques; every formula has "
  "several branches (convective/radiative, saturated, fully convective) "
  "per star.",
  ["posydon/binary_evol/DT/step_detached.py",
   "posydon/binary_evol/DT/tides/default_tides.py",
   "posydon/binary_evol/DT/gravitational_radiation/"
   "default_gravrad.py",
   "posydon/binary_evol/DT/magnetic_braking/prescriptions.py",
   "posydon/binary_evol/DT/winds/default_winds.py"],
  [("right-hand side", "step_detached.py:detached_evolution"),
   ("step and events", "step_detached.py:detached_step.__call__"),
   ("torques", "tides/, gravitational_radiation/, magnetic_braking/, winds/")],
  ["the derivative vector", "binary state, event and histories after a step"],
  "runtime monitor with an independent reference model of the torques on "
  "analytic toy tracks",
  "The real right-hand side is compared term by term with an independent "
  "implementation and with the stars exchanged; steps run on analytic "
  "tracks against an independent integration.")


P("C01", "A binary evolves step by step exactly as its flow chart says",
  "For every initial binary, flow chart, set of steps and set of hooks, the "
  "evolution runs exactly the step the flow chart names for the current "
  "(star, star, binary state, event), appends one row to every history of "
  "the binary and both stars after each step (except after redirect steps "
  "unless history_verbose), calls the hooks in order around it, and stops "
  "at END/FAILED or a configured end state or event. "
  "A total state which is undefined or without step, a step which raises or "
  "takes too long, more than the allowed number of steps, and a birth after "
  "the simulation time each end the evolution with an error and no earlier "
  "row lost or altered.",
  ["histories", "configurations", "fault points"],
  "all sequences of total states, flow charts, hooks, step limits and faults "
  "in a step",
  "The loop has no unit test; its guarantee is about whole histories, "
  "including those in which a step fails at an arbitrary point.",
  ["posydon/binary_evol/binarystar.py",
   "posydon/binary_evol/simulationproperties.py"],
  [("loop", "binarystar.py:BinaryStar.evolve, run_step"),
   ("history", "binarystar.py:append_state; singlestar.py:append_state"),
   ("hooks", "simulationproperties.py:pre_evolve ... post_evolve")],
  ["trace of hook calls, step calls and recorded rows"],
  "online trace checker over hooked evolution events, with fault injection",
  "Random scripts of up to 130 steps; the trace of hooks, steps and rows is "
  "compared event by event with the script.")

P("C02", "Restoring a binary undoes exactly the steps after that row",
  "Restoring a binary to any recorded row gives it and both stars exactly "
  "the values recorded there, shortens every history to that row (the hook "
  "columns included) and forgets the supernova properties and events of "
  "later steps, and evolving on from there reproduces the original history; "
  "resetting equals restoring row 0. "
  "New simulation properties given to reset are the ones the next evolution "
  "uses.",
  ["histories"],
  "all recorded histories, all rows, repeated restore/evolve cycles, failed "
  "binaries",
  "The repository has no test of restore or reset; re-evolution is what "
  "users do with a failed binary.",
  ["posydon/binary_evol/binarystar.py", "posydon/binary_evol/singlestar.py"],
  [("restore", "binarystar.py:BinaryStar.restore; "
    "singlestar.py:SingleStar.restore"),
   ("reset", "binarystar.py:BinaryStar.reset")],
  ["attributes and histories of the binary and its stars"],
  "runtime monitor comparing snapshots before and after restore/re-evolution",
  "Random scripted evolutions with snapshots taken at every row.")

P("C03", "Binaries survive the round trip through data frames",
  "Every recorded row, value and column of a binary (None, NaN, strings and "
  "velocities included) appears in its history data frame with the documented "
  "prefixes, and a binary loaded from it (also through an HDF5 file) has the "
  "same histories and current values; a missing period or separation is "
  "completed by Kepler's law. "
  "The one-line data frame holds the initial and final values and the "
  "supernova properties of both stars and loads back as the initial binary. "
  "Column selections keep exactly the selected columns, and no conversion "
  "changes the binary.",
  ["inputs", "histories"],
  "all histories, column selections, extra columns, failed binaries",
  "Users' populations exist only as these tables; a single lossy column or "
  "value is invisible to the few shapes a test converts.",
  ["posydon/binary_evol/binarystar.py", "posydon/binary_evol/singlestar.py"],
  [("history table", "binarystar.py:to_df, from_df; singlestar.py:to_df"),
   ("one-line table", "binarystar.py:to_oneline_df, oneline_from_df")],
  ["data frames, files and reloaded objects"],
  "offline checker over recorded tables, value-by-value round-trip oracle",
  "Random histories including unequal lengths and missing values, written "
  "to HDF5 and read back.")

P("C30", "Collapse of a profile to a black hole conserves mass and spin up to a disk",
  "Collapsing a stellar profile to a black hole: the central cells nearest to "
  "the given central mass, less the neutrino loss, form the first black hole "
  "with the angular momentum they carry (at most a spin of 0.99); every further "
  "shell up to the remnant mass falls in, matter with less specific angular "
  "momentum than the innermost stable orbit of the growing Kerr hole directly, "
  "the rest through a disk that radiates 1-E_isco of it and gives j_isco. Hole, "
  "radiation and neutrinos add up to the collapsing mass; spin stays in 0..1, "
  "else ValueError; jet energy is the sum of dm_disk c^2 a^2. Hydrogen and "
  "helium ejected are those of the cells above the remnant, never more than the "
  "star leaves over. Without the needed columns mass is the central mass less "
  "neutrinos, spin and disk NaN; negative or too large losses are refused; the "
  "profile is not changed. StepSN with use_profiles gives the remnant these "
  "numbers.",
  ["inputs"],
  "all profiles, rotation laws, remnant and central masses, neutrino losses",
  "Tests use one or two constant profiles; the order of the shells, the growing "
  "hole and the disk threshold only matter for structured rotating profiles.",
  ["posydon/binary_evol/SN/profile_collapse.py",
   "posydon/binary_evol/SN/step_SN.py"],
  [("collapse", "profile_collapse.py:do_core_collapse_BH"),
   ("initial hole", "profile_collapse.py:get_initial_BH_properties"),
   ("ejecta", "profile_collapse.py:get_ejecta_element_mass_at_collapse")],
  ["remnant dictionary and star after the collapse"],
  "runtime monitor: independent shell-by-shell collapse and mass budget",
  "1,500 collapses, 400 supernovae with profiles, 700 ejecta per quick run.")


P("C31", "Stars continue on the closest single-star track, or not at all",
  "A star handed to the detached step is given the point of a single-star "
  "track of its own kind (hydrogen-rich or helium) whose scaled difference "
  "in the matching attributes is within the configured tolerance, and then "
  "has all its properties and its further evolution from that track, with "
  "its rotation carried over; if no track is within tolerance the binary "
  "fails with a matching error. "
  "Compact and massless objects are not matched and stay as they are, and "
  "the primary is the more evolved star as documented.",
  ["inputs", "configurations"],
  "all stars (phase, mass, composition, rotation), companions, positions, "
  "matching methods and tolerances",
  "No test matches a star; acceptance is decided by an optimiser over a "
  "two-dimensional family of tracks.",
  [
   "posydon/binary_evol/track_match.py"],
  [("matching", "track_match.py:TrackMatcher.match_to_single_star"),
   ("both stars", "track_match.py:TrackMatcher.do_matching"),
   ("rotation", "track_match.py:get_star_match_data, get_omega")],
  ["the matched stars and their track interpolators"],
  "runtime monitor with analytic tracks as oracle",
  "Toy grids with closed-form tracks: the accepted match is re-scored "
  "independently and every property compared with the closed form.")

P("C04", "Every total state is routed to its documented next step",
  "For every combination of two star states, binary state and event the "
  "default flow chart names the documented step (or none): collapse events "
  "of collapsible stars go to step_SN, CE events to step_CE, Roche-lobe "
  "overflow and detached systems with a compact object to the grid of the "
  "donor's kind, two stars to step_detached, two compact objects to "
  "step_dco, disrupted/merged/single systems to their steps, and exhausted "
  "systems, time-limit, contact and initial-RLOF cases to step_end. "
  "User changes replace exactly the existing entries they name, the "
  "initial-eccentricity chart differs only in sending ZAMS binaries to "
  "step_detached and overflow of two evolvable stars to step_HMS_HMS_RLO, "
  "and neither alters the default chart.",
  ["inputs", "configurations"],
  "all 70400 total states and all change sets",
  "The chart is built by overlapping loops whose order decides; a test "
  "samples a few of tens of thousands of entries.",
  ["posydon/binary_evol/flow_chart.py", "posydon/binary_evol/step_end.py",
   "posydon/binary_evol/binarystar.py"],
  [("chart", "flow_chart.py:POSYDON_FLOW_CHART"),
   ("changes", "flow_chart.py:flow_chart, initial_eccentricity_flow_chart")],
  ["the chart and the step run by the loop"],
  "runtime monitor with an independent rule table over every total state",
  "All total states are looked up and a sample is run through the loop.")

P("C05", "Population runs neither lose, duplicate nor alter any system",
  "For every population size, batch size, RAM and data-frame option, job "
  "array and index selection, the saved population contains each system "
  "exactly once with exactly the rows its steps produced, flags exactly the "
  "systems whose evolution failed or warned, and accounts for the number of "
  "systems and the simulated mass of singles and binaries; one failing "
  "system never affects another, and a fault while combining files leaves "
  "every system in some file. "
  "The ranks of a job array share the indices without gap or overlap, the "
  "same entropy reproduces the same population whatever the batching, ranks "
  "and metallicities draw different systems, and systems re-evolved from a "
  "file evolve alike.",
  ["histories", "configurations", "fault points"],
  "all sizes, batchings, ranks, planned faults and warnings at any step, "
  "write faults at any append",
  "Batching, parallel merging and error paths are marked as not covered by "
  "the tests (pragma: no cover); the guarantee is conservation over whole "
  "runs with faults.",
  ["posydon/popsyn/binarypopulation.py",
   "posydon/popsyn/synthetic_population.py"],
  [("run", "binarypopulation.py:BinaryPopulation._safe_evolve"),
   ("combine", "binarypopulation.py:combine_saved_files; "
    "synthetic_population.py:merge_parallel_runs"),
   ("draws", "binarypopulation.py:BinaryPopulation.__init__, "
    "BinaryGenerator")],
  ["population files and leftover files after a run"],
  "offline conservation and exactly-once checker over run logs, with fault "
  "injection in steps and writes",
  "Scripted steps log what happened; the final HDF5 files are audited row "
  "by row, and against a rerun with other batching.")

P("C25", "Configuration files are honoured exactly as written",
  "Every step, option, hook (with or without its own options, by package or "
  "absolute file), grid path and population option of any ini file reaches "
  "the simulation with the value written, several files override in order, "
  "and job-array settings come from the environment. "
  "Loading the steps gives each step its own options, its own metallicity "
  "or else the requested one, the grid path and track matcher belonging to "
  "it, and leaves the configuration as it was, so loading again at another "
  "metallicity works. MESA-grid ini files and ConfigFile contents are read "
  "back as written, and protected files and entries are not overwritten.",
  ["inputs", "configurations", "histories"],
  "all option values, section orders, hook lists, repeated loads",
  "A dropped or shifted option changes the science silently; tests parse one "
  "fixed file.",
  ["posydon/popsyn/io.py", "posydon/binary_evol/simulationproperties.py",
   "posydon/utils/configfile.py"],
  [("ini", "io.py:simprop_kwargs_from_ini, binarypop_kwargs_from_ini"),
   ("loading", "simulationproperties.py:load_steps, load_a_step, check_step"),
   ("grid ini", "configfile.py:parse_inifile, ConfigFile")],
  ["parsed options and created step and hook objects"],
  "runtime monitor comparing generated configurations with what steps receive",
  "Thousands of random ini files and load sequences with recording steps.")

P("C07", "Initial conditions follow the advertised distributions",
  "For every valid parameter set, each IMF, mass-ratio, period, separation "
  "and eccentricity distribution has the documented normalised density (zero "
  "outside its range; Sana12 and power-law periods are densities per dex, "
  "Sana12 flat in log P up to primaries of 15 Msun), and its samples lie in "
  "the range and follow that density. "
  "A generated population has primaries from the IMF, mass ratios flat "
  "between the limits of each primary (or equal masses), the period "
  "distribution belonging to each primary's mass, independent "
  "eccentricities, and the constant or mass-dependent (0.4/0.59/0.76/0.84/"
  "0.94 with limits 2, 5, 9, 16 Msun inclusive) binary fraction, where a "
  "single star has NaN companion and orbit. "
  "The same generator state gives the same sample, and impossible ranges or "
  "unknown schemes raise ValueError.",
  ["inputs", "configurations"],
  "all ranges, slopes, breaks, schemes and seeds",
  "Tests compare single draws with pinned numbers; that a whole sample "
  "follows the density can only be seen statistically for many parameters.",
  ["posydon/popsyn/IMFs.py", "posydon/popsyn/distributions.py",
   "posydon/popsyn/independent_sample.py",
   "posydon/utils/common_functions.py"],
  [("IMFs", "IMFs.py:Salpeter, Kroupa1993, Kroupa2001, Chabrier2003"),
   ("distributions", "distributions.py"),
   ("populations", "independent_sample.py:generate_independent_samples")],
  ["returned densities and samples"],
  "runtime monitor with closed-form densities and goodness-of-fit oracles",
  "Densities are compared point by point with closed forms, samples with "
  "closed-form CDFs (KS and binned, alarm below 1e-9).")

P("C08", "Population files give back exactly what was stored",
  "For every population file (systems numbered plainly, with gaps or out of "
  "order) and every chunk size, History, Oneline and Population return by "
  "index, list, slice, mask, column, head, tail and select exactly the "
  "stored rows in stored order, with the right lengths, numbers of systems, "
  "parameters and simulated masses (singles count only their own mass), and "
  "opening or analysing a file leaves its tables unchanged. "
  "Formation channels are, for every system, its own sequence of events "
  "(with the mass-transfer class of the initial phase inserted after the "
  "first event and redirects removed in the short form), independent of "
  "chunk size. "
  "create_transient_population passes every system once, with its complete "
  "history, oneline row and channel, to the user's function, and stores every "
  "returned event once with its system's index.",
  ["inputs", "configurations", "histories"],
  "all file contents, index patterns, chunk sizes, keys and selections",
  "Chunked reading fails only for particular relations of chunk size, "
  "history lengths and index order; tests use one tiny ordered file.",
  ["posydon/popsyn/synthetic_population.py"],
  [("views", "synthetic_population.py:History, Oneline, DFInterface"),
   ("accounting", "synthetic_population.py:PopulationIO, Population"),
   ("channels", "synthetic_population.py:calculate_formation_channels"),
   ("transients", "synthetic_population.py:create_transient_population")],
  ["data frames returned and stored in the file"],
  "runtime monitor comparing every access with the stored tables",
  "Hundreds to thousands of random files and chunkings against the data "
  "frames they were written from.")

P("C09", "Exporting a selection of systems copies them faithfully",
  "export_selection writes, for every selection of distinct systems in any "
  "order and any chunk sizes, the unchanged oneline rows, complete histories, "
  "history lengths and formation channels of the selected systems, numbered "
  "consecutively in selection order from 0 or after the highest index of the "
  "file appended to (a missing metallicity column gets the population's solar "
  "metallicity). "
  "The exported mass_per_metallicity keeps the full simulated masses, adds "
  "those of equal metallicities when appending, and counts the exported "
  "systems of each metallicity; source file and population object stay as "
  "they were. "
  "An existing file is only touched with overwrite or append, contradictory "
  "options, a name without .h5 and several metallicities without a column are "
  "refused, and the exported file is a valid population for any chunk size.",
  ["inputs", "histories", "configurations"],
  "all selections, chunk sizes, and sequences of exports from several "
  "populations into one file",
  "Renumbering and accounting only go wrong for unordered selections, "
  "several chunks or repeated appends.",
  ["posydon/popsyn/synthetic_population.py"],
  [("export", "synthetic_population.py:Population.export_selection"),
   ("parameters", "synthetic_population.py:PopulationIO")],
  ["all tables of the source and exported files after every operation"],
  "runtime monitor replaying exports against an in-memory model of the file",
  "Random operation sequences; every table of the file is compared after "
  "every operation.")

P("C10", "Model weights re-weight the simulated to the requested population",
  "For every pair of simulated and requested birth populations, the model "
  "weight of each system is (density of the requested / density of the "
  "simulated population) x (mean mass simulated / mean mass requested) / "
  "simulated mass, finite and zero where nothing was simulated or requested; "
  "the density is f_b x IMF x mass-ratio x period density per dex for "
  "binaries and (1-f_b) x IMF for single stars, so weighted samples add up to "
  "one solar mass formed and unchanged parameters give 1/M_sim. "
  "Every event of a transient population gets the weight of its own system "
  "with the simulated mass of its own metallicity, whatever the order or "
  "number of events and the order of the components, stored with the "
  "requested parameters and without touching other sets of weights; the "
  "efficiency is their sum per metallicity and channel. "
  "Populations which were not simulated (f_b 0 against 1) and unknown "
  "schemes raise ValueError.",
  ["inputs", "configurations"],
  "all parameter sets of both populations, all systems, file orders and "
  "chunk sizes",
  "A wrong density or normalisation changes every published rate by a factor "
  "which no pinned example reveals for other schemes.",
  ["posydon/popsyn/norm_pop.py", "posydon/popsyn/synthetic_population.py"],
  [("densities", "norm_pop.py:get_pdf, get_mean_mass"),
   ("weights", "norm_pop.py:calculate_model_weights"),
   ("events", "synthetic_population.py:TransientPopulation."
    "calculate_model_weights, model_weights, efficiency")],
  ["weights, densities and mean masses returned and stored"],
  "runtime monitor with closed-form densities and importance-sampling oracle",
  "Hundreds to thousands of parameter pairs; also statistical end-to-end "
  "re-weighting of generated samples.")

P("C12", "Cosmic rates integrate events over the star-formation history",
  "Redshift bins are ordered, of equal cosmic time delta_t, reach from z=0 "
  "to 100 with centres inside them, metallicity bins are split half-way in "
  "log Z (one metallicity: dlogZ rules), and shell volumes are the comoving "
  "volume over 1+z. "
  "For every event and birth bin, calculate_cosmic_weights stores the "
  "redshift at birth time plus delay (none after today) and the weight 4 pi c "
  "D_c^2 delta_t x SFR density x metallicity fraction at birth x model weight, "
  "for any chunk size and also with several events per system, without "
  "changing the default or given model; computed again under the same "
  "identifier, the new values replace the old ones. "
  "The intrinsic rate density of each redshift bin (total and per channel) is "
  "the sum of the weights of the events in it over its volume, and an "
  "observable population holds the user function's weights for every event.",
  ["inputs", "configurations"],
  "all populations, delay times, star-formation models, metallicity layouts, "
  "time steps and chunk sizes",
  "Tests fake the cosmology or use one event; misaligned chunks, bins or "
  "metallicities only show for mixed populations.",
  ["posydon/popsyn/rate_calculation.py",
   "posydon/popsyn/synthetic_population.py"],
  [("bins", "rate_calculation.py:get_redshift_bin_edges, "
    "get_shell_comoving_volume"),
   ("weights", "synthetic_population.py:calculate_cosmic_weights"),
   ("rates", "synthetic_population.py:Rates")],
  ["bins, weights, redshifts, rate densities in the file"],
  "runtime monitor recomputing all weights from cosmology and an own SFH",
  "Every stored weight, redshift and rate of random populations is "
  "recomputed independently.")

P("C11", "Star-formation histories distribute all mass formed correctly",
  "For every model (Madau+Dickinson14, Madau+Fragos17, Neijssel+19, "
  "Fujimoto+24, Zavala+21, IllustrisTNG, Chruslinska+21) and redshift, the "
  "cosmic star-formation rate and mean metallicity are the published formula "
  "or the table interpolated linearly in redshift. "
  "The fraction formed in a metallicity bin is the model's cumulative "
  "distribution over that bin, where the outer bins reach out to Z_min and "
  "Z_max if these lie beyond the bins and nothing forms beyond the limits "
  "(wherever they lie), never negative, and with normalise the bins sum to "
  "one; rate and fraction multiply to the star formation per bin. "
  "Formation times are one per binary: the burst time, uniform in time, or "
  "ages drawn from the given table or histogram (linear or log10), "
  "reproducible from the generator; invalid models, limits and scenarios "
  "raise ValueError.",
  ["inputs", "configurations"],
  "all redshifts, metallicity bins, limits, models, age tables and seeds",
  "The limits interact with bins in many orders (inside one bin, at an edge, "
  "beyond the bins); tests sample a few.",
  ["posydon/popsyn/star_formation_history.py",
   "posydon/utils/common_functions.py"],
  [("fractions", "star_formation_history.py:SFHBase._distribute_cdf"),
   ("models", "star_formation_history.py:MadauBase, IllustrisTNG, "
    "Chruslinska21, Zavala21"),
   ("formation times", "star_formation_history.py:get_formation_times")],
  ["returned rates, fractions and times"],
  "runtime monitor with an independent star-formation model, KS for samples",
  "Thousands of bin/limit layouts; data-driven models use synthetic tables "
  "of the published format.")

P("C20", "Orbit, accretion, spin and sampling relations hold for every input",
  "For all masses, orbits and shapes (scalars, arrays) the shared relations "
  "give the published result and leave their arguments unchanged: Kepler's "
  "law both ways, Eggleton's Roche lobe (NaN without mass or orbit) and the "
  "overflow test with its tolerance, Peters' merger time and beta, Thorne's "
  "spin-up (1 when saturated, NaN if mass was lost, None if undefined), "
  "compact-object radii, helium main-sequence lifetime, effective "
  "temperature, Eddington rate, beaming and Bondi-Hoyle wind accretion "
  "(disk criterion, Eddington cap; one value per row of the histories), "
  "orbital change by winds and stable transfer, rotation matrices, metallicity labels. "
  "Unphysical arguments raise ValueError. "
  "flip_stars exchanges the stars, their t_sync and overflow values and the "
  "star number in every current and recorded state and event, so twice is the "
  "identity; the samplers and interp1d follow the given density or table.",
  ["inputs"],
  "all masses, separations, eccentricities, spins, accretion rates, "
  "histories and tables, as scalars or arrays",
  "Tests compare a few numbers per function; regimes, array forms and "
  "argument mutation show elsewhere.",
  ["posydon/utils/common_functions.py", "posydon/utils/interpolators.py"],
  [("orbits", "common_functions.py:orbital_separation_from_period, "
    "roche_lobe_radius, inspiral_timescale_from_separation, "
    "period_change_stable_MT"),
   ("accretion", "common_functions.py:eddington_limit, beaming, bondi_hoyle, "
    "spin_stable_mass_transfer"),
   ("samplers", "common_functions.py:inverse_sampler, rejection_sampler, "
    "histogram_sampler"),
   ("relabelling", "common_functions.py:flip_stars")],
  ["returned values; arguments before and after; binary after flip_stars"],
  "runtime monitor: closed forms, ODE integration, inverses, KS for samplers",
  "Thousands of random and boundary arguments per relation.")

P("C19", "Evolutionary states, transfer cases and run flags are classified right",
  "For every abundance, burning luminosity and mass, the star state follows "
  "the published thresholds (surface H 0.01; burning above 1e-10 Lsun and 3% "
  "of the nuclear luminosity; central abundance 0.01; compact objects WD up "
  "to 1.46 with composition or below 1.1, NS up to 2.5, then BH), alone, in "
  "histories and in grids. "
  "Overflow above 0 or, for the dominating star, transfer above 1e-10 gives "
  "the donor's case A/B/C/BA/BB/nonburning, from which state (detached, RLO1, "
  "RLO2, contact, undefined), event (oCE1/2, oDoubleCE1/2 when the companion "
  "is evolved too, CC1/2) and the cumulative case string follow, where a "
  "donor never returns to an earlier case. "
  "The termination flags of a run (last code in the log, transfer history, "
  "final states), its interpolation class and the initial-overflow boundary "
  "follow from log and histories alone.",
  ["inputs", "histories"],
  "all abundances, luminosities, masses, overflows, rates, log files and "
  "mass-transfer histories",
  "The decision tables have thousands of cells with boundaries; tests visit "
  "some of them.",
  ["posydon/utils/common_functions.py", "posydon/grids/termination_flags.py",
   "posydon/utils/limits_thresholds.py",
   "posydon/visualization/combine_TF.py"],
  [("states", "common_functions.py:infer_star_state, check_state_of_star"),
   ("transfer", "common_functions.py:infer_mass_transfer_case, "
    "get_binary_state_and_event_and_mt_case, cumulative_mass_transfer_flag"),
   ("flags", "termination_flags.py:get_mass_transfer_flag, "
    "infer_interpolation_class, get_flag_from_MESA_output")],
  ["returned states, cases, events and flags"],
  "runtime monitor with independent decision tables over threshold products",
  "About 29,000 threshold combinations of states exhaustively, the rest "
  "random.")

P("C21", "Grids hold every usable MESA run once and exactly as it was computed",
  "Creating a PSyGrid from directories of MESA runs (nested, several, gzipped) "
  "stores each usable run once: histories restricted to the chosen columns and "
  "to the models all tables share, without redone or half-written steps, final "
  "profiles unchanged, He core at least the CO core (He_core_fix); initial "
  "values are the first row with masses and period of the header and X,Y,Z, "
  "final values the last row with flags, class and core at He depletion, both "
  "in the row, run group and MESA_dirs entry of that run. Columns are found by "
  "name whatever their order in the file. Runs without (readable, common) "
  "history are left out and spoil no other; a later directory replaces the same "
  "initial point; start_at_RLO, stop_before_carbon_depletion, slim and "
  "initial_RLO_fix (periods below the nearest of at least 20 detected initial "
  "overflows are forced) do as documented. Joining keeps every point once from "
  "the last grid having it, withdraws points marked ignored_no_RLO, refuses "
  "different settings or columns and leaves its inputs. Adding or overwriting a "
  "column changes nothing else, in memory and in the file, however the grid was "
  "loaded; rerun lists the chosen runs once.",
  ["inputs", "histories"],
  "all sets of run directories, file damage, options and sequences of edits",
  "Tests use two rows of consecutive integers; alignment of rows with runs, "
  "column order, damage and lazily loaded edits are beyond them.",
  ["posydon/grids/psygrid.py", "posydon/grids/io.py",
   "posydon/utils/gridutils.py", "posydon/grids/lazy_hdf.py",
   "posydon/grids/termination_flags.py"],
  [("creation", "psygrid.py:PSyGrid._create_psygrid"),
   ("joining", "psygrid.py:join_grids"),
   ("editing", "psygrid.py:PSyGrid.add_column"),
   ("reading", "gridutils.py:read_MESA_data_file")],
  ["every number of the stored grid, reloaded from the file"],
  "runtime monitor: stored grids against the tables written to disk",
  "About 340 grids with 1,500 runs and a million values per quick run.")


P("C22", "Scrubbing and downsampling keep tracks and profiles faithful",
  "Downsampling a table (float or integer, several histories at once) keeps "
  "its first and last row and rows unchanged and in order; every dropped row "
  "is reproduced by linear interpolation between the kept neighbours to "
  "within max_err on columns rescaled to [0,1], gaps never exceed "
  "max_interval, straight lines are dropped, and all histories keep the same "
  "rows. Scrubbing leaves ages and model numbers strictly increasing (read "
  "from the last row backwards) and only models common to all tables. "
  "keep_after_RLO keeps the rows from the first overflow or transfer above "
  "threshold with ages counted from there (None without any); "
  "keep_till_central_abundance keeps the rows up to the first central He/C "
  "depletion and names the star. Invalid input is refused.",
  ["inputs"],
  "all histories and profiles, tolerances, intervals and abundances",
  "The error bound has to hold between all pairs of kept rows of any table; "
  "tests look at a few short arrays.",
  ["posydon/grids/downsampling.py", "posydon/grids/scrubbing.py",
   "posydon/grids/psygrid.py"],
  [("downsampling", "downsampling.py:TrackDownsampler"),
   ("scrubbing", "scrubbing.py:scrub, keep_after_RLO, "
    "keep_till_central_abundance_He_C")],
  ["tables before and after"],
  "runtime monitor: error bound re-evaluated for every dropped row",
  "Thousands of random, noisy, constant, integer and degenerate tables.")

P("C15", "Common envelopes obey the alpha-lambda energy budget",
  "For every donor, companion, orbit and option: the post-envelope separation "
  "satisfies G M1c M2c/2a_f = G M1 M2/2a_i + G M1 M1env/(alpha lambda R1) (+ "
  "the companion's envelope in a double common envelope), with core mass, "
  "radius and lambda of the chosen definition (default, grid values for 1%, "
  "10%, 30% hydrogen or 10% helium, or integrated over the profile: "
  "gravitational, plus internal, minus recombination energy). "
  "The binary survives exactly if both cores (companion relaxed to a single "
  "star when its radius alone is in the way) fit into their Roche lobes, "
  "within the tolerance, after the ejection and after the stable transfer or "
  "wind loss that follows; then it is detached and circular, the giants are "
  "left with their own core mass, radius, composition and state, the stale "
  "rest is forgotten and the companion untouched. Otherwise it merges, with "
  "both masses kept or reduced by the layers the released orbital energy can "
  "unbind, never more than the envelope. Donors without a core (and "
  "Hertzsprung-gap donors if pessimistic) merge at once. Anything else is "
  "refused.",
  ["inputs"],
  "all donors, companions, orbits, profiles and common-envelope options",
  "No test covers the step; the balance has to hold for every combination of "
  "options and both stars.",
  ["posydon/binary_evol/CE/step_CEE.py", "posydon/utils/common_functions.py"],
  [("energy balance", "step_CEE.py:CEE_simple_alpha_prescription"),
   ("after the ejection", "step_CEE.py:CEE_two_phases_stableMT, "
    "CEE_two_phases_windloss, CEE_one_phase_variable_core_definition"),
   ("binding energy", "common_functions.py:calculate_lambda_from_profile, "
    "calculate_Mejected_for_integrated_binding_energy")],
  ["binary and stars before and after the step; lambda, core mass, radius"],
  "runtime monitor: independent energy balance and profile integrals",
  "About 18,000 random systems per quick run in all options.")

P("C18", "Mergers conserve mass and mix stars as documented; isolated stars age",
  "Merging two stars gives one star in the slot of the engulfing one with the "
  "sum of the masses (two main-sequence stars lose the set fraction), the "
  "other is a massless remnant. Core masses add up; a main-sequence star adds "
  "to the envelope only, a white dwarf to every core; a star merging with a "
  "neutron star or black hole disappears and leaves that object unchanged. "
  "The further evolved star is the base: central abundances are mass-weighted "
  "over the bodies (MS), the He cores (no CO core), the CO cores (both), else "
  "those of the star with the CO core; surface abundances over bodies, "
  "envelopes or helium envelopes as they were before the merger. Rotation is "
  "the set fraction of critical; structure that is unknown is NaN; the state "
  "follows from the mixture; impossible pairs are refused. Isolated "
  "(disrupted, initially single, merged) stars follow their single-star track "
  "to collapse or time limit, without orbit, the other object unchanged.",
  ["inputs"],
  "all pairs of star states, structures, slots and options",
  "More than 200 pairs of states with three kinds of cores; no test covers "
  "the step.",
  ["posydon/binary_evol/DT/step_merged.py",
   "posydon/binary_evol/DT/step_isolated.py",
   "posydon/binary_evol/DT/step_disrupted.py",
   "posydon/binary_evol/DT/step_initially_single.py"],
  [("merger", "step_merged.py:MergedStep.merged_star_properties"),
   ("isolation", "step_isolated.py:IsolatedStep.__call__")],
  ["both stars and the binary before and after"],
  "runtime monitor: independent mass and abundance budget over all pairs",
  "About 9,000 mergers per quick run, all pairs of states and cores.")

P("C24", "Interpolated final values follow from the grid runs of their class",
  "An initial-final interpolator trained on any grid (star 2 by mass or mass "
  "ratio) answers, at the initial conditions of a run, with the classes and "
  "final values of that run; between runs with the linear interpolation of "
  "the normalised values of the runs of its class, outside their hull (or "
  "with method 1NN) with the values of the nearest run of the class. Class "
  "and nearest run are judged in the normalised initial conditions; all "
  "values lie within the range of the class. Runs of other classes, runs "
  "marked not_converged or ignored and runs with missing initial conditions "
  "have no influence; initial mass transfer has no final values (NaN). Gaps "
  "in a column are filled from the nearest run having it, columns without "
  "any value give NaN. Every quantity keeps its name, several interpolators "
  "(supernova prescriptions) are merged without mixing, saving and loading "
  "changes nothing, and scalers undo themselves.",
  ["inputs", "configurations"],
  "all grids, columns, classes, normalisations, methods and query points",
  "No unit tests exist; a wrong normalisation or neighbour gives plausible "
  "numbers everywhere.",
  ["posydon/interpolation/IF_interpolation.py",
   "posydon/interpolation/data_scaling.py"],
  [("interpolation", "IF_interpolation.py:BaseIFInterpolator, IFInterpolator"),
   ("scaling", "IF_interpolation.py:MatrixScaler; data_scaling.py:DataScaler")],
  ["answers at, between and outside the runs of synthetic grids"],
  "runtime monitor: own normalisation, triangulation and nearest run",
  "About 130 trained interpolators and 6,000 queries per quick run.")

P("C26", "Interpolated quantities are made physically consistent",
  "Whatever an interpolation returns, afterwards all laws whose quantities "
  "are present hold: core masses and radii do not exceed the star (nor the "
  "CO core the He core), a remnant or layer mass does not exceed the mass, "
  "the effective temperature follows from luminosity and radius "
  "(Stefan-Boltzmann), the separation from period and masses (Kepler), the "
  "nuclear luminosity is the sum of its parts, no star loses more than the "
  "transfer rate and the accreted fraction follows from both, centre and "
  "surface abundances add up to one with their ratios kept, and the "
  "convective shell lies inside the star (one outside is moved towards the "
  "centroid of the possible shells, to the edge). Consistent values stay as they "
  "are, quantities without a law are untouched, none is added, enforcing "
  "twice changes nothing, unknown (NaN) inputs give NaN, and the selection "
  "of laws for one interpolator does not affect another.",
  ["inputs", "histories"],
  "all interpolated values and selections of quantities",
  "No unit tests exist; the laws must hold for every value and subset.",
  ["posydon/interpolation/constraints.py"],
  [("enforcement", "constraints.py:sanitize_interpolated_quantities"),
   ("selection", "constraints.py:find_constraints_to_apply")],
  ["quantities before and after enforcement"],
  "runtime monitor: every law re-evaluated with own formulas",
  "6,000 random results, consistent to wild, for random selections.")

P("C33", "Grid steps put a binary onto the MESA run of its initial conditions",
  "Each MESA step (HMS-HMS, HMS-HMS RLO, CO-HMS RLO, CO-HeMS RLO, CO-HeMS; "
  "either star may be the grid's primary, results being swapped back) finds "
  "the nearest converged run in log masses (mass ratio for HMS-HMS) and log "
  "period, or asks the interpolator, and afterwards every binary and stellar "
  "property, profile, post-processed value, class and supernova entry is the "
  "final one of that run and star; time advances by its age; eccentricity, "
  "systemic velocity and metallicity stay. Compact objects follow the mass "
  "of the run with the matching spin-up and radius and accrete at most at "
  "the Eddington limit, also in the history. The history gets the initial "
  "row and/or the whole track as configured, all columns equally long. If "
  "the run outlasts the maximum time the binary stops exactly there with "
  "linearly interpolated values, states inferred from them and event "
  "maxtime. Periods outside the grid and eccentric orbits are redirected "
  "untouched; masses outside while the period is inside raise GridError; "
  "other states raise FlowError; carbon-depleted stars go to collapse; "
  "initial overflow leaves the stars alone.",
  ["inputs", "configurations"],
  "all grids, binaries, edges, options and maximum times",
  "No unit tests exist for these steps, which set nearly every number of a "
  "population.",
  ["posydon/binary_evol/MESA/step_mesa.py",
   "posydon/interpolation/interpolation.py"],
  [("steps", "step_mesa.py:MS_MS_step, CO_HMS_RLO_step, ..."),
   ("values", "step_mesa.py:MesaGridStep.update_properties_NN, "
    "initial_final_interpolation, stop_at_condition"),
   ("nearest run", "interpolation.py:psyTrackInterp")],
  ["binaries after real steps on synthetic grid files"],
  "runtime monitor: every property against the tables of the nearest run",
  "About 1,200 executions and half a million comparisons per quick run.")

P("C34", "Single-star tracks, end values and profiles are interpolated right",
  "A track asked for at a mass of the single-star grid is that run's; in "
  "between, every quantity is mixed linearly in initial mass, row by row up "
  "to the length of the shorter neighbour; it starts at the first row where "
  "hydrogen burning gives at least 99% of the luminosity (the first row if "
  "none) and its ages count from there. End values mix the closest runs on "
  "each side that have a value (NaN if a side has none), supernova entries "
  "per model; types are those of the closer run. Profiles are mixed at equal "
  "relative mass on the layers of the neighbour reaching less deep. Masses "
  "beyond the grid raise ValueError. Answers do not depend on earlier "
  "questions. Stars get end values and profile (rigid rotation) from the grid "
  "of their kind and metallicity. In time each quantity follows its own table "
  "by monotone cubic (PCHIP) interpolation, clipped at zero or differentiated "
  "where asked, shifted by the offset.",
  ["inputs", "histories"],
  "all grids, masses, gaps in the end values, profile depths, query orders "
  "and ages",
  "The grid interpolator has no unit tests; matching tests replace it by "
  "mocks.",
  ["posydon/interpolation/interpolation.py",
   "posydon/utils/interpolators.py", "posydon/binary_evol/track_match.py",
   "posydon/binary_evol/simulationproperties.py"],
  [("tracks", "interpolation.py:GRIDInterpolator"),
   ("time", "interpolators.py:SingleStarInterpolator"),
   ("stars", "track_match.py:TrackMatcher.get_star_final_values, "
    "get_star_profile"),
   ("files", "simulationproperties.py:create_track_matcher")],
  ["tracks, values, types and profiles returned for random queries"],
  "runtime monitor: every answer against the tables written into the grid",
  "About 2,200 executions and 80,000 comparisons per quick run.")

P("C23", "Post-processing adds the right quantities to every run of a grid",
  "For every grid (binary with two stars or a compact companion, or single "
  "stars), whole or in parts, each column has one entry per run in the order "
  "of the runs: star states (None for runs without evolution), carbon "
  "abundance and CO core at first helium depletion, common-envelope lambdas "
  "and cores, remaining abundances 1-H-He-C-N-O (0 if unknown), and the "
  "transfer history of the class and donor sequence. The star that collapses "
  "is star 1 with a compact companion or a flag of the primary, star 2 with "
  "one of the secondary, with gamma_center_limit the first with gamma >= 10; "
  "never after unstable transfer or without evolution, only in collapsing "
  "states. For each supernova model its entries equal collapsing a fresh copy "
  "of the star, None if refused and for the other star; the interpolation "
  "class is the remnant type, BH_reverse_MT when both stars were donors. "
  "Writing stores all this (again if repeated) and nothing else; another "
  "order of runs is refused. A run turned into a binary or star carries the "
  "run's final values, histories, states and profiles.",
  ["inputs", "histories"],
  "all grids, classes, termination flags, donor sequences, supernova models "
  "and splittings",
  "Tests use a few mocked runs; misassignments show with other classes, "
  "flags or secondary collapses.",
  ["posydon/grids/post_processing.py", "posydon/grids/SN_MODELS.py",
   "posydon/binary_evol/binarystar.py", "posydon/binary_evol/singlestar.py",
   "posydon/visualization/combine_TF.py"],
  [("columns", "post_processing.py:post_process_grid"),
   ("file", "post_processing.py:add_post_processed_quantities"),
   ("runs", "binarystar.py:BinaryStar.from_run, "
    "singlestar.py:SingleStar.from_run"),
   ("models", "SN_MODELS.py:get_SN_MODEL_NAME")],
  ["columns returned, the grid file before and after, stars from runs"],
  "runtime monitor: stars rebuilt from the tables and collapsed one by one",
  "About 600 executions and 200,000 comparisons per quick run; random "
  "outcomes (Maltsev+25) are not compared.")

P("C32", "Transients are selected and characterised from the right rows",
  "For every population table, with any indices, order of binaries and order "
  "of explosions: GRB_selection returns exactly one entry per binary whose "
  "star S1 or S2 has m_disk_radiated > 0, with the masses, spins, period and "
  "eccentricity of the rows before and after the explosion of that star, the "
  "time after it in Myr, its disk, metallicity, weight, and the channel up "
  "to that explosion. BBH_selection_function gives for every binary, in the "
  "order given, the values after the second explosion, the time of merger and "
  "inspiral time, tilts after the second explosion, chirp mass, mass ratio "
  "<= 1 and effective spin (unknown spins and tilts count as 0). "
  "DCO_detectability multiplies each event's weight by the mean detection "
  "probability of its 10 nearest grid points, weighted by inverse distance, "
  "in (log m1, q, log z, chi_eff) scaled to the grid, m1 the heavier object, 0 "
  "without redshift. get_GRB_properties gives E = eta m c^2, beaming, "
  "isotropic energy and luminosity (over 25 s), and the flags above the "
  "threshold, only for stars with a disk. get_subsets returns the complete "
  "data of exactly the binaries selected. Nothing passed in is changed (the "
  "burst table apart), and unknown options are refused.",
  ["inputs"],
  "all tables of binaries, both stars and orders of explosion, options",
  "No unit test covers selection with secondary first, missing spins, "
  "unordered indices, or the burst energies.",
  ["posydon/popsyn/transient_select_funcs.py", "posydon/popsyn/GRB.py",
   "posydon/popsyn/analysis.py", "posydon/popsyn/selection_effects.py"],
  [("selection", "transient_select_funcs.py:GRB_selection, "
    "BBH_selection_function"),
   ("detection", "transient_select_funcs.py:DCO_detectability, "
    "selection_effects.py:KNNmodel"),
   ("energies", "GRB.py:get_GRB_properties"),
   ("subsets", "analysis.py:get_subsets")],
  ["tables returned by the selection functions"],
  "runtime monitor: each value against the row it has to come from",
  "About 2,000 executions and 80,000 comparisons per quick run.")

P("C35", "A population run on a cluster ends complete, whatever job fails",
  "posydon-popsyn setup writes, for every configuration, list of "
  "metallicities and options, job scripts carrying exactly the options given "
  "(defaults otherwise), with tasks 0 to job_array-1, and submits per "
  "metallicity the array and then its merge, which waits for that array. A "
  "run with fewer binaries than tasks, or an unsupported supernova model "
  "while interpolating, is refused without writing job scripts. Whatever "
  "subset of jobs is killed, at any point, posydon-popsyn check: passes "
  "(returns 0 without asking) exactly if each metallicity has a population "
  "file with number_of_binaries systems; otherwise, for metallicities "
  "without file, if all batches exist it offers to repeat just their merges, "
  "else it writes rescue scripts (if agreed) for exactly the missing tasks "
  "with the original options unless overridden, and a script that submits "
  "each rescue and then its merge; nothing is submitted unless agreed. After "
  "the rescues each population holds every system exactly once with complete "
  "history, and with a fixed entropy equals an undisturbed run; leftovers of "
  "killed jobs never enter it.",
  ["crash_points", "fault_sequences", "histories", "configurations"],
  "all configurations, subsets of failing jobs, points of failure, orders of "
  "tasks and answers",
  "Tests look at single generated scripts; completeness after failures needs "
  "whole histories of jobs, kills and rescues.",
  ["posydon/CLI/io.py", "posydon/CLI/popsyn/check.py",
   "posydon/CLI/popsyn/setup.py", "bin/posydon-popsyn",
   "posydon/popsyn/binarypopulation.py"],
  [("setup", "setup.py:setup_popsyn_function, io.py:create_slurm_scripts"),
   ("check", "check.py:check_popsyn_function"),
   ("rescue", "io.py:create_batch_rescue_script"),
   ("jobs", "io.py:create_run_script_text, create_merge_script_text")],
  ["job scripts, submissions recorded by a stand-in for SLURM, batch and "
   "population files after every round"],
  "runtime monitor with fault injection: jobs run in forks and are killed",
  "About 48 campaigns with some 400 jobs and 100 kills per quick run. A job "
  "killed while writing its combined batch counts as present, as in the "
  "code; the incomplete population is then reported.")

P("C36", "Correlated initial conditions follow Moe & Di Stefano (2017)",
  "For every grid of tables and range of periods the generator tabulates the "
  "published distributions: mass ratios as a broken power law (break at 0.3) "
  "with an excess of twins above 0.95, eccentricities as a power law turning "
  "over before the maximum for the period (practically circular up to 2 "
  "days), the frequency of companions per decade of period integrated down "
  "to q = 0.1, and the share of them that are inner binaries, all depending "
  "on primary mass and period. Draws follow the tables of the nearest mass "
  "and period: the binary fraction is the integral over the inner binaries "
  "(scaled down below 0.8 Msun; everything is a binary if so requested), "
  "single stars have neither companion nor orbit, secondaries are not below "
  "the minimum mass, metallicities are uniform in the logarithm. A "
  "population sampled with it uses only the random generator given, keeps to "
  "the requested period range, returns separations if asked for, mixes with "
  "other schemes for eccentricity or period as requested and does not depend "
  "on what was sampled before.",
  ["inputs", "configurations", "histories"],
  "all masses, table sizes, period ranges, schemes, random generators and "
  "orders of calls",
  "Tests replace the generator by a mock or look at the shape of the output; "
  "distributions cannot be settled by samples.",
  ["posydon/popsyn/Moes_distributions.py",
   "posydon/popsyn/independent_sample.py"],
  [("tables", "Moes_distributions.py:Moe_17_PsandQs.__init__"),
   ("draws", "Moes_distributions.py:Moe_17_PsandQs.__call__"),
   ("population", "independent_sample.py:generate_independent_samples")],
  ["tables of real generators; systems drawn from them"],
  "runtime monitor: tables against the published equations, draws by "
  "probability-integral transforms",
  "All cells of 40 random grids; 24 samples of 1,500 systems and 10 "
  "populations per quick run.")

P("C27", "Systems read from a file start exactly as written there",
  "With read_samples_from_file, system number i of a population (in any "
  "split over jobs, for any requested number and first index) starts with "
  "row i of the file, the file being repeated from its first row as often as "
  "needed: masses, eccentricity, natal kicks of both stars, and period or "
  "separation as orbital_scheme asks (the other following from Kepler's "
  "law); without a secondary mass it is a single star without orbit. Columns "
  "are found by any documented name in any capitalisation, the first "
  "documented name winning, wherever they stand; unrelated columns are "
  "ignored. Quantities missing in the file are drawn from the requested "
  "distributions, missing kicks stay unset. Missing files, files without "
  "systems and unknown schemes are refused.",
  ["inputs", "configurations"],
  "all tables, column names, numbers, offsets, splits into jobs",
  "Tests read one small table; a shifted row or column gives a plausible "
  "population of other systems.",
  ["posydon/popsyn/sample_from_file.py",
   "posydon/popsyn/binarypopulation.py"],
  [("reading", "sample_from_file.py:get_samples_from_file, "
    "get_kick_samples_from_file, infer_key"),
   ("binaries", "binarypopulation.py:BinaryGenerator.draw_initial_samples, "
    "draw_initial_binary")],
  ["arrays read; binaries drawn and evolved from generated files"],
  "runtime monitor comparing every starting value with the row of the file",
  "300 tables, 600 binaries and 24 populations per quick run.")

P("C28", "Warnings are counted, filtered, caught and shown as documented",
  "Every POSYDON warning issued by Pwarn (category given as class or name, "
  "unknown names as POSYDONWarning) is shown or not as the filters set by "
  "SetPOSYDONWarnings/NoPOSYDONWarnings/AllPOSYDONWarnings say (the latest "
  "filter for the category or its base class wins; 'default', 'once' and "
  "'module' show it once per place and category, 'always' each time, "
  "'ignore' never), names the place it comes from, and is counted in the "
  "statistics per place and category unless ignored. In a "
  "Catch_POSYDON_Warnings context nothing is shown before its end; with "
  "record=True all warnings (after the filters with filter_first) are kept in "
  "order and obtained by get_cache, and issued at the end also if the context "
  "is left by an error; warnings of different places or categories are told "
  "apart; a context with its own registry leaves the statistics alone; "
  "catch_warnings=False changes nothing. A population shows the warnings of "
  "its systems only with warnings_verbose, each system with its own, and "
  "marks exactly the systems which warned.",
  ["inputs", "histories"],
  "all sequences of warnings, filter changes and contexts",
  "Tests issue single warnings; lost or merged warnings show up only in "
  "sequences.",
  ["posydon/utils/posydonwarning.py",
   "posydon/popsyn/binarypopulation.py"],
  [("warnings", "posydonwarning.py:Pwarn, Catch_POSYDON_Warnings, "
    "SetPOSYDONWarnings, _apply_POSYDON_filter"),
   ("populations", "binarypopulation.py:BinaryPopulation.evolve")],
  ["warnings shown, statistics, caches after every operation"],
  "runtime monitor: model-based checker of random histories of warnings",
  "500 histories (3000+ warnings) and 20 populations per quick run.")

P("C29", "Data is installed verified; MESA output is compressed without loss",
  "get-posydon-data installs a data set by adding exactly the files of its "
  "archives, in the order of the set, to the data folder; an archive whose "
  "checksum differs from the published one is never unpacked (unless the "
  "check is switched off) and leaves nothing behind; unpublished or unknown "
  "data is refused; files in the way are not overwritten and other files stay "
  "as they are. posydon-compress-mesa replaces every .data, .mod and .txt "
  "file of a MESA run folder by its gzip version with identical content, "
  "removes core dumps there, touches nothing else, whatever characters the "
  "paths contain, and has nothing left to do a second time; with -td it "
  "copies the asked share of complete runs of every grid and leaves the "
  "originals untouched.",
  ["inputs", "faults"],
  "all archives, damages, file names, folder structures",
  "Tests replace the calls by stand-ins; loss of data needs odd names or "
  "damaged archives.",
  ["posydon/utils/data_download.py", "posydon/utils/compress_mesa_files.py",
   "posydon/utils/datasets.py"],
  [("download", "data_download.py:data_download, download_one_dataset"),
   ("compression", "compress_mesa_files.py:compress_dir, set_up_test, "
    "get_size")],
  ["file trees before and after, byte by byte"],
  "runtime monitor comparing complete file trees before and after real runs "
  "with injected damage",
  "120 installations, 40 compressions, 30 samples per quick run; file:// "
  "addresses stand for the network.")

P("C37", "The processing pipeline does each task once, in order, as documented",
  "posydon-setup-pipeline writes, for exactly the steps switched on and the "
  "additions (plots, checks) asked for and not switched off, a csv table with "
  "exactly one entry per combination of grid type, metallicity, slice and "
  "compression (and interpolation method) with the documented paths "
  "(PATH_TO_GRIDS/TYPE/VERSION/Z/...: h5 files below the compression, "
  "combined and _processed grids, originals with the same RLO, "
  "interpolation_objects/IF_METHOD[_RLO].pkl, POSYDON_data/... for the "
  "export, rerun_TYPE_SLICE; plots only for the first compression with and "
  "without RLO; control grids after training, with the interpolator of that "
  "step); lists missing in a step are those of the step before; plot and "
  "check sets are expanded; with DROP_MISSING_FILES exactly the entries are "
  "left out whose input neither exists nor is made by an earlier step. "
  "Configurations of unequal lengths, without needed lists or grids, or "
  "with nothing to do are refused. run_pipeline.sh submits every job once, "
  "with one array task per entry, each step after the success of the step "
  "before, every job after those which make its input; every task has a log "
  "of its own in an existing folder and clean-up jobs merge logs without "
  "loss; with GROUP all files made are handed to the group. "
  "posydon-run-pipeline entry i of a table does exactly that task: step 1 "
  "creates the grid with the settings of its compression (RLO start, "
  "stop before carbon depletion for HMS grids only), step 2 layers the "
  "grids of its column (later ones win), step 3 writes a copy of the grid "
  "with the quantities calculated from the original, step 4 stores an "
  "interpolator which gives the classes, final values and remnants of the "
  "runs at their initial conditions, step F copies files unchanged, rerun "
  "selects each run showing the problem of the rerun type once, with the "
  "changed settings, and the ini file of grid type, cluster and metallicity; "
  "failure_rate reports the share of not converged runs. Step 5 "
  "(tensorflow needed) is claimed only for the tables of its additions.",
  ["inputs", "configurations"],
  "all configurations, files present, grids",
  "There are no tests of these scripts; a wrong path or missing dependency "
  "gives a complete-looking but wrong data set.",
  ["bin/posydon-setup-pipeline", "bin/posydon-run-pipeline",
   "posydon/utils/gridutils.py"],
  [("set-up", "posydon-setup-pipeline:PostProcessingPipeline, create_csv, "
    "slurm_job, create_cleanup_slurm_job"),
   ("tasks", "posydon-run-pipeline:create_grid_slice, combine_grid_slices, "
    "calculate_extra_values, train_interpolators, export_dataset, rerun, "
    "logic_rerun, do_check"), ("names", "gridutils.py:get_new_grid_name")],
  ["tables, batch scripts, submissions to a stand-in for SLURM, logs, grids "
   "and interpolators made"],
  "runtime monitor: set-ups executed against a recording SLURM stand-in and "
  "an independent plan; tasks executed on generated grids",
  "170 set-ups, 30 refusals, 60 slices, 40 combinations, 16 processed grids, "
  "8 trainings, 160 reruns per quick run.")

P("C38", "MESA runs every point of a grid once, with the settings asked for",
  "A fixed grid set up with posydon-setup-grid (shell or slurm, job_array) "
  "and run with the scripts it writes runs MESA exactly once for every row of "
  "the csv, with in each namelist (binary_controls, binary_job, controls and "
  "star_job of star 1 and 2) exactly: MESA's defaults, below POSYDON's "
  "defaults, below the inlists of the scenario, below the inlists of the "
  "user (later layers win, whatever the order of lines in the ini; None is no "
  "layer; references to other inlists are dropped), with the output flags "
  "(history, final profile, final model of each star, history_interval, "
  "zams_filename[_1/_2]) of the ini, below the values of the row for every "
  "column which is a variable of that namelist (numbers to 10 digits, "
  "logicals). MESA is built from the makefiles and sources given (user's "
  "extras before POSYDON's before MESA's) and gets the column lists and the "
  "number of threads given. Formation inlists given for a star without a "
  "zams file run first, every step once with its own inlists and the mass "
  "of the row, the second one also with the initial_z of the row, each from "
  "the model of the step before, and the binary starts from the last model. "
  "single_star_grid runs the inlists of star 1 with initial_mass and "
  "initial_z of the row. A scenario ['posydon', 'BRANCH-HASH', TYPE] uses "
  "the files of that commit (common inlists, those of TYPE on top, its "
  "column lists, extras, zams files and star formation). The output of row i "
  "is, complete, in one folder of the run directory named after the values "
  "of the row (%.4f; %.4e for initial_z and period) and _grid_index_i, with "
  "what MESA printed in out.txt, profiles and photos only if kept by "
  "keep_profiles/keep_photos, compressed; nothing is left in work_dir and no "
  "process runs on. The slurm job is an array over all rows with the "
  "account, partition, CPUs, time and mail given, and a clean-up after it "
  "(afterany). With work_dir, output written so far is saved in the run "
  "directory 300 s before the end of the job. Not claimed: dynamic grids, "
  "job_array = False, text columns, names of folders beyond the file "
  "system's limit.",
  ["inputs", "configurations", "crash points"],
  "all layers of inlists, grids, job orders and ends of jobs",
  "There are no tests of these scripts; a setting lost between layers gives "
  "a grid which looks fine and is wrong.",
  ["bin/posydon-setup-grid", "bin/posydon-run-grid",
   "posydon/utils/gridutils.py", "posydon/utils/configfile.py"],
  [("set-up", "posydon-setup-grid:construct_static_inlist, "
    "find_inlist_from_scenario, make_executables, construct_command_line"),
   ("runs", "posydon-run-grid:run_grid_point, create_binary_inlists, "
    "create_star_formation, run_mesa, move_mesa_output"),
   ("inlists", "gridutils.py:clean_inlist_file"),
   ("ini", "configfile.py:parse_inifile")],
  ["settings, sources, column lists and models a stand-in for MESA runs "
   "with, folders and files left, submissions to a stand-in for SLURM"],
  "runtime monitor: the written scripts are executed with a stand-in for "
  "MESA which reads inlists as MESA does and logs its effective settings; "
  "jobs run in random order and are killed",
  "33 grids with about 60 points, 300000 settings compared per quick run.")

P("C39", "Active learning trains on the right rows and proposes sound points",
  "psy-cris (posydon.active_learning.psy_cris). TableData: rows and columns "
  "of the DataFrame or of all csv files, in order, except rows holding an "
  "omit_vals value, omit_cols columns and rows not in subset_interval; the "
  "given DataFrame is not changed; classes are the sorted distinct values of "
  "the class column (strings or any integers), class_ids 0..N-1 stand for "
  "them in that order (id -> class and the id of each row), "
  "get_binary_mapping_per_class marks the rows of each class; "
  "get_regr_data gives per class exactly its rows, with the output columns "
  "whose first value in the class is a number (nan instead of a DataFrame if "
  "there is none), plus for each n of n_neighbors smaller than the class "
  "APC{n}_{col} = |mean difference to the n nearest other rows of the class "
  "(Euclidean, inputs)|/value (nan or undefined_p_change_val where the value "
  "is 0; no column if all are 0); find_n_neighbors gives the nearest other "
  "rows and mean distances. Classifier: return_probs is the one-against-rest "
  "interpolation (linear, rbf clipped to [0,1], gp) of the rows trained on "
  "(di), normalised to sum 1, for the queries with a value (indices "
  "returned); get_class_predictions is its maximum, as id or name; rows "
  "trained on get their class. Regressor: predictions interpolate only the "
  "rows of that class with defined values; abs_max_APC and get_max_APC_val "
  "are the largest (absolute) changes. Cross validation trains on "
  "int(n*alpha) distinct rows, tests on all others (percentage right; "
  "differences, percentages without zeros; linear falls back to rbf), and "
  "leaves the trained interpolators as they were, also when it fails. "
  "Sampler: TD_classification = ((1-pmax)/(1-1/Nclasses))^TD_BETA, "
  "TD_classification_regression = (TD_TAU*class term + (1-TD_TAU)*"
  "log10(TD_A1*|APC|+1)/log10(TD_A1*abs_max_APC+1))^TD_BETA, both at most "
  "1e-15 where there is no classification; run_MCMC starts at the last given "
  "step, tries normal steps of width alpha, takes those uphill always, those "
  "downhill with probability ratio^(1/T), never one outside the range of the "
  "inputs, and counts trials up to N_trials or upper_limit_reject; "
  "run_PTMCMC has temperatures T_max^(1/c)... and 1, walks every chain "
  "N_draws_per_swap trials from init_pos (default: median of the inputs; "
  "alpha: a fifth of the range) and swaps neighbors with the ratio of the "
  "tempered targets; do_simple_density_logic sorts every step into accepted "
  "or rejected, accepting with probability prod(1-exp(-d^2/2/cov)) (or "
  "1-sum) over accepted (and training) points, "
  "cov=Kappa/2*N_points^(-1/dim)*var_mult; get_proposed_points, when it "
  "converges, gives exactly N_points distinct steps of the history (the most "
  "widespread of n_repeats sets, reproducible by seed). "
  "get_new_query_points gives N points inside the range of the data with the "
  "class predicted for each and leaves the settings given unchanged (they "
  "can be used again); do_small_class_proposal draws evenly around classes "
  "of one row, with the mean distance to the neighbors per axis as scale; "
  "do_dynamic_sampling ends with N_final_points, every iteration training on "
  "all points so far; calc_performance gives the share of places predicted "
  "right, the confusion of each true class and regression errors; "
  "check_dist, get_confusion_matrix, calc_regression_accuracy, regular and "
  "random grids and parse_inifile do what they say. Not claimed: plots, "
  "do_density_logic, make_cv_plot_data, duplicate inputs.",
  ["inputs", "configurations", "histories"],
  "all tables, queries, targets, temperatures and random streams",
  "There are no tests of this code; acceptance probabilities and row "
  "bookkeeping cannot be seen in single runs.",
  ["posydon/active_learning/psy_cris/data.py",
   "posydon/active_learning/psy_cris/classify.py",
   "posydon/active_learning/psy_cris/regress.py",
   "posydon/active_learning/psy_cris/sample.py",
   "posydon/active_learning/psy_cris/utils.py"],
  [("rows", "data.py:TableData, calc_avg_dist, calc_avg_p_change"),
   ("interpolators", "classify.py:Classifier; regress.py:Regressor"),
   ("sampling", "sample.py:Sampler.run_MCMC, run_PTMCMC, "
    "do_simple_density_logic, get_proposed_points, TD_*"),
   ("proposals", "utils.py:get_new_query_points, do_small_class_proposal, "
    "do_dynamic_sampling, calc_performance")],
  ["rows per class, probabilities, predictions, every target evaluation, "
   "step and swap of recorded chains, proposed points"],
  "runtime monitor: row-by-row models, direct interpolation of the rows "
  "concerned, and acceptance statistics over recorded target evaluations",
  "640 cases, 100000 monitor evaluations, some 30000 downhill trials and "
  "6000 swaps per quick run.")


P("C40", "Figures of a grid show exactly the runs and values asked for",
  "PSyGrid.plot2D(x, y, z, ...): a panel shows every run of the slice once and "
  "no other point. The slice is all runs with lower <= initial value <= upper "
  "for slice_3D_var_str (grid_3D) and slice_4D_var_str (grid_4D), bounds "
  "included; lists of ranges give one panel each, every combination once, "
  "with the middle of its range(s) written in it, and one legend for all. A "
  "run is at its initial values of x and y (also mass_ratio = star_2_mass/"
  "star_1_mass), log10 where log10_x/log10_y; it has the marker its flag has in "
  "the table of markers (MARKERS_COLORS_LEGENDS or the default), and the "
  "line width and color of the table or, if the color is None, its value of z (log10_z) on one "
  "color scale for the figure (zmin, zmax or, in one panel, the range of the "
  "values of the slice), or gray without z. z is a final value, the value of "
  "a SN model, the last value of history1 or binary_history, "
  "relative_change_X = (final-initial)/initial, or an array given by the "
  "user; runs without a value are not drawn colored. Flags: termination_flag_1"
  "..4 ('?' removed from 2), combined_TF12, debug (=1), interpolation_class, "
  "interpolation_class_errors, S1/S2 state, CO_type and SN_type of a SN "
  "model, all (four panels). The legend lists the legend texts of exactly the "
  "flags shown, each once, with a marker of one of them. An extra_grid adds its own "
  "runs with its own flags and values. slice_at_RLO (one panel) draws the track from the "
  "initial values to the first step with rl_relative_overflow_1 >= -0.05 and "
  "lg_mtransfer_rate >= -12, with the run at that step (and its z there), at "
  "the initial values if there is none. Labels and limits of the axes are "
  "those of the variables and as asked. PSyGrid.plot draws for each run and "
  "each y the whole history column against x (log10 as asked), colored by z "
  "on the scale of all the tracks; PSyGrid.HR log_Teff against log_L of the "
  "chosen star, all inside the axes, temperature increasing to the left, "
  "with states=True each step in the color of the state of that star. "
  "combine_TF12 gives for a class and a mass-transfer history the flag by "
  "class, donors (both: reverse), first and last case. No figure alters the grid, "
  "the default plot properties, or a figure drawn later; fname is saved "
  "in path_to_file and the figure closed unless close_fig=False.",
  ["inputs", "configurations", "histories"],
  "every grid, choice of variables, flag, slice, panel layout, marker table, "
  "extra grid and sequence of figures",
  "Figures are hardly unit tested; a shifted selection, a wrong column, the "
  "values of another grid or star, or a panel of another slice give a figure "
  "that looks right.",
  ["posydon/visualization/plot2D.py", "posydon/visualization/plot1D.py",
   "posydon/visualization/combine_TF.py",
   "posydon/visualization/plot_defaults.py", "posydon/grids/psygrid.py"],
  [("2D", "plot2D.py:plot2D.update_values_to_plot, get_x_var, get_y_var, "
    "get_z_var, plot_panel, plot_panels"),
   ("1D", "plot1D.py:plot1D.update_values_to_plot, plot_panel, HR_diagram"),
   ("flags", "combine_TF.py:combine_TF12"),
   ("grid", "psygrid.py:PSyGrid.plot2D, plot, HR")],
  ["every point, track, legend entry, label and color scale of the figures; "
   "the grid and the defaults before and after"],
  "runtime monitor: artists of the real figures against the runs written to "
  "the grid file",
  "300 figures, 14000 monitor evaluations per quick run.")
