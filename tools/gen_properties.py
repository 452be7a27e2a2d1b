"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["pyDeltaRCM/" + f for f in files],
         "mechanism": [{"name": n, "where": "pyDeltaRCM/" + w} for n, w in mech]}
    if "state" in kw:
        kw["state"] = [{"name": x.strip(), "where": a["files"][0]} for x in kw["state"].split(",")]
    if "observe_at" in kw:
        kw["observe_at"] = [kw["observe_at"]]
    a.update(kw)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "A resumed run is indistinguishable from an uninterrupted one",
  "Stopping a checkpointing run after any completed checkpoint and resuming it with the same configuration continues the same simulation: "
  "model time, step and save counters, sea level, every state field, the random sequence and every later saved record equal those of the run that was never stopped. "
  "This holds for any split point, any number of stop/resume cycles, any time step, and whether or not the output file is still present.",
  ["histories", "configurations"],
  "every history of step/stop/resume operations up to the bound, for every configuration in the alphabet (time step, save and checkpoint intervals, sea-level rise, subsidence, output selection, legacy format, missing output file)",
  "The checkpoint tests resume once, with one integer-valued time step and save interval equal to the checkpoint interval; they cannot cover all splits, repeated resumes or fractional intervals.",
  ["init_tools.py", "iteration_tools.py", "model.py", "shared_tools.py"],
  [("write checkpoint", "iteration_tools.py:save_the_checkpoint"), ("restore", "init_tools.py:load_checkpoint"), ("random state", "shared_tools.py:get_random_state/set_random_state")],
  state="counters, clock, grids, rng state, output file", observe_at="model attributes and output file after each step")

p("C02", "Every saved record is the model's state at the moment it was saved",
  "The output file holds exactly one record per save, in time order, and each record's time, grids (including user-added variables) and time-varying metadata equal the model's state at that save, "
  "while coordinates, dimensions, fixed metadata and units describe the configured domain. "
  "This holds in both file layouts for every selection of output variables, and stays true when the run is stopped and resumed any number of times.",
  ["histories", "configurations"],
  "all histories of steps, boundary-condition changes and stop/resume up to the bound, for every output selection and layout in the alphabet",
  "Tests read back a few variables at one or two indices from one configuration; record alignment over histories and resume copies is not covered.",
  ["iteration_tools.py", "init_tools.py", "model.py"],
  [("record writing", "iteration_tools.py:save_grids_and_figs"), ("file creation", "init_tools.py:init_output_file"), ("copy on resume", "init_tools.py:load_checkpoint")],
  state="pyDeltaRCM_output.nc", observe_at="the file on disk after every step")

p("C03", "Data and checkpoints are saved on the configured cadence",
  "The initial state is always saved; afterwards data are saved at precisely those steps where at least the save interval has elapsed since the previous save, and likewise checkpoints with the checkpoint interval (which defaults to the save interval) when checkpointing is enabled. "
  "Saving one kind never delays, repeats or skips the other, for any relation between time step, save interval and checkpoint interval.",
  ["histories", "configurations"],
  "all combinations of time step, save interval, checkpoint interval (shorter, equal, longer, non-multiple, zero, unset) and all histories of steps and time-step changes up to the bound",
  "Timing tests run a few fixed ratios with integer steps; the joint space of intervals and histories is not enumerated.",
  ["model.py", "iteration_tools.py"],
  [("elapsed counters", "model.py:update"), ("triggers", "iteration_tools.py:output_data/output_checkpoint"), ("default interval", "model.py:checkpoint_dt")],
  state="elapsed-since-save counters, save index", observe_at="saved records, checkpoint file contents")

p("C04", "A crash never destroys the last checkpoint or already saved records",
  "If the process dies at any instant while a checkpoint is being written or while a run is being resumed from a folder with its checkpoint and output file, that folder still holds a loadable checkpoint (the previous or the new one) and all output records saved before. "
  "Resuming again from that folder succeeds and continues the same simulation.",
  ["crash_points", "histories"],
  "every system-call-level crash point (and torn write) of the checkpoint write and of the resume procedure, for histories with zero, one or more earlier checkpoints and resumes",
  "No test kills the process; crash points cannot be sampled by ordinary unit tests.",
  ["iteration_tools.py", "init_tools.py"],
  [("checkpoint write", "iteration_tools.py:save_the_checkpoint"), ("rewriting of the output file", "init_tools.py:load_checkpoint")],
  state="checkpoint.npz, pyDeltaRCM_output.nc", observe_at="files on disk after a kill")

p("C05", "Timestep protocol: documented hooks and stages run once and in order",
  "Constructing a model and calling update run the documented stages in the documented order, each documented hook being called exactly once, immediately before (or, for the 'after' hooks, immediately after) its stage, whatever the configuration. "
  "Time and the step counter advance by exactly one time step per update, and once finalized a model rejects further updates and finalizations without changing state or output.",
  ["histories", "configurations"],
  "all operation sequences over {construct, update, finalize, resume} up to the bound, for all configurations in the alphabet",
  "Tests mock single hooks in one configuration and check one finalize ordering.",
  ["model.py", "iteration_tools.py", "water_tools.py", "sed_tools.py", "hook_tools.py"],
  [("update", "model.py:update"), ("stages", "iteration_tools.py:solve_water_and_sediment_timestep"), ("water loop", "water_tools.py:route_water"), ("sediment", "sed_tools.py:route_sediment")],
  state="lifecycle flag, clock", observe_at="hook call sequence")

p("C06", "Same configuration and seed always give the same simulation",
  "Two runs with the same physical configuration and seed produce identical states at every step, regardless of verbosity, of which figures, grids, metadata or checkpoints are saved and how often, of the state of the general-purpose random generator, and of other runs executed earlier or in the same batch. "
  "In particular each job of a serial or parallel batch gives the result of running its written configuration alone, and a run without a configured seed is reproduced by the seed it recorded.",
  ["histories", "configurations", "schedules"],
  "all pairs of observation settings in the alphabet, all batch compositions up to the bound, serial and parallel, all positions in the batch",
  "Tests check fixed expected values for single runs; independence from observation options and batch position is a relation over pairs of runs.",
  ["init_tools.py", "shared_tools.py", "preprocessor.py", "iteration_tools.py"],
  [("seeding", "init_tools.py:determine_random_seed"), ("random draws", "shared_tools.py:get_random_uniform"), ("jobs", "preprocessor.py:_SerialJob/_ParallelJob")],
  state="random generator state", observe_at="state fields after each step")

p("C07", "Multi-job expansion produces exactly the specified jobs",
  "A matrix expands to the full Cartesian product of its values, a set to one job per listed entry, and an ensemble to that many replicates of every combination, each with its own newly drawn seed, each job inheriting all fixed settings. "
  "Every job gets its own folder and a written configuration that reads back as exactly its settings, the job table lists the same values under the matching headings, and the user's input is left unmodified. "
  "Contradictory or invalid specifications and pre-existing job folders are rejected before any existing file is touched.",
  ["inputs", "configurations"],
  "all matrix/set/ensemble specifications over the key and value alphabet up to the bound (key orders, value types, fixed keys), from file or in memory, and all documented invalid combinations",
  "Tests use a handful of numeric matrices; value types, key orders and combinations are not enumerated.",
  ["preprocessor.py", "shared_tools.py"],
  [("expansion", "preprocessor.py:_expand_matrix/_expand_set/_expand_ensemble"), ("config writing", "preprocessor.py:_write_yaml_config_to_file")],
  state="job folders, jobs_parameters.txt, job yaml", observe_at="files and config list")

p("C08", "Batch execution runs every job once, bounded, and isolates failures",
  "In a parallel batch at most the requested number of jobs run at a time, every job is started exactly once and waited for, and a job slot is always given back, so that under every interleaving and every set of jobs that raise an error while running the batch terminates with all other jobs completed and finalized and each outcome reported. "
  "A failing job in a serial batch likewise does not keep later jobs from running, and it is still finalized.",
  ["schedules", "fault_sequences"],
  "all interleavings of parent and job processes and all assignments of failures (at output initialization, at any step, at finalization) to jobs, for up to three jobs and one to three slots",
  "The parallel tests run one real schedule with no or one failure; interleavings and failure points cannot be chosen.",
  ["preprocessor.py"],
  [("slot semaphore", "preprocessor.py:run_jobs"), ("job body", "preprocessor.py:_ParallelJob.run"), ("serial body", "preprocessor.py:_SerialJob.run")],
  state="semaphore, queue, processes", observe_at="event trace under a controlled scheduler")

p("C09", "A job runs for exactly the configured duration",
  "A job configured by number of steps performs exactly that many steps, and a job configured by time (or years) steps until the first step at which the requested duration, scaled by the intermittency factor, has been reached; steps take precedence over time and time over years, and settings given directly override those in the file. "
  "A resumed job runs the requested duration beyond the checkpoint, and the time and rate conversion helpers agree with this scaling.",
  ["inputs", "configurations", "histories"],
  "all combinations of duration settings, intermittency factors, time-step values, sources (file, keyword, command line) and fresh/resumed starts in the alphabet",
  "Tests use a few round numbers for which rounding and precedence conflicts do not show.",
  ["preprocessor.py", "shared_tools.py", "model.py"],
  [("end time", "preprocessor.py:_BaseJob.__init__"), ("loop", "preprocessor.py:_SerialJob.run/_ParallelJob.run"), ("scaling", "shared_tools.py:scale_model_time"), ("cli", "preprocessor.py:PreprocessorCLI.process_arguments")],
  state="clock, end time", observe_at="number of update calls")

p("C10", "Configuration is applied exactly, or rejected with an error",
  "Every documented parameter given in the file or as a keyword takes effect with exactly the given value, keywords win over the file, and all others take their documented defaults; parameters registered by a subclass behave the same way. "
  "A value of a wrong type or outside the documented range is rejected with an error, and an unknown parameter only produces a warning that names it and changes nothing.",
  ["inputs", "configurations"],
  "every documented parameter times a value alphabet of every YAML type and the boundary values of its range, from file, keyword and both",
  "Tests try a few parameters and values; the parameter-by-value product is not enumerated.",
  ["init_tools.py", "model.py", "default.yml", "shared_tools.py"],
  [("parsing and type checks", "init_tools.py:import_files"), ("range checks", "model.py property setters"), ("number parsing", "shared_tools.py:custom_yaml_loader")],
  state="model parameters", observe_at="model attributes, errors, warnings")

p("C11", "Changing boundary conditions mid-run leaves no stale derived value",
  "After any sequence of changes to channel velocity, width, depth, sediment concentration, bedload fraction, sea-level state or time step through the model's named variables, every quantity derived from them (water and sediment discharges, parcel volumes, time step, velocity limit, sediment routing constants, subsidence and diffusion per step; the velocity thresholds of settling and erosion are fixed when the model is configured) equals that of a model freshly configured with the final values. "
  "The order of changes to different variables does not matter (except that a time step set explicitly holds until a boundary condition recomputes it), and an unchanged assignment is a no-op.",
  ["histories"],
  "all sequences of named-variable assignments over a small value alphabet up to the bound, before and after stepping",
  "Tests set one variable once and look at a few attributes.",
  ["model.py", "init_tools.py", "sed_tools.py"],
  [("setters", "model.py:channel_flow_velocity ... bedload_fraction, time_step"), ("derivation", "init_tools.py:create_boundary_conditions"), ("router constants", "init_tools.py:init_sediment_routers"), ("subsidence", "init_tools.py:init_subsidence")],
  state="derived boundary conditions", observe_at="model attributes and router constants")

p("C12", "The initial domain matches its configuration for every geometry",
  "For every admissible length, width, cell size, inlet length and inlet width the domain is partitioned into land, inlet channel, ocean and open boundary cells: the land rows end where the inlet ends, the inlet is a contiguous straight channel of the configured width in cells, and cells in the ocean are bounded by open-boundary cells so that no parcel can leave the grid. "
  "Initial bed, water surface, depth, discharge and velocity agree with the configured channel and basin depth and inlet flow in every cell.",
  ["configurations"],
  "all grid sizes, inlet lengths and widths up to the bound (including degenerate small ones), and depth/slope/velocity alphabets",
  "Tests check one or two domain sizes.",
  ["init_tools.py"],
  [("geometry", "init_tools.py:create_domain"), ("cell counts", "init_tools.py:create_other_variables/create_boundary_conditions")],
  state="cell types and initial grids", observe_at="model grids after construction")

p("C13", "Water parcels walk only through valid cells and account for the discharge",
  "In every timestep every water parcel starts in the inlet and moves between neighbouring cells only, never onto land or off the grid, until it reaches the open boundary or its step limit (a parcel without any wet neighbour may stay where it is; one that revisits a cell may be relocated seaward, to a place depending only on its own position, and no longer shapes the surface unless at sea level). "
  "The direction probabilities follow the documented surface-slope, inertia and depth weighting, are non-negative and sum to one with none given to land, and each move contributes the parcel's share of the inflow once to the cell it leaves and once to the cell it enters (half each), entering the inlet and leaving through the open boundary included.",
  ["inputs", "histories"],
  "all direction choices of all parcels up to the deviation bound on small domains, and all 3x3 neighbourhoods over the depth/stage/cell-type alphabets",
  "Tests run seeded walks or single neighbourhoods; unlikely walks (loops, dry pockets, boundary corners, step limit) are not reached.",
  ["water_tools.py", "shared_tools.py"],
  [("walk", "water_tools.py:run_water_iteration"), ("weights", "water_tools.py:_get_weight_at_cell_water"), ("loops", "water_tools.py:_check_for_loops"), ("discharge", "water_tools.py:update_Q")],
  state="parcel positions, new discharge fields", observe_at="state between documented stages")

p("C14", "The water surface is what the parcel walks imply",
  "After each routing iteration the new water surface is the average of the elevations implied by all valid parcel walks traced up from sea level at the boundary, smoothed over non-land neighbours and underrelaxed with the old surface as configured, then flooded onto dry shore cells that lie below a wet neighbour's surface. "
  "It is never below sea level, and cells no parcel visits keep their previous surface before smoothing.",
  ["inputs", "histories"],
  "all walks up to the deviation bound on small domains with wet, dry, land and flooded cells, and all small stage/bed/cell-type patterns for smoothing and flooding",
  "Tests cover single walks and default smoothing only.",
  ["water_tools.py"],
  [("accumulation", "water_tools.py:_accumulate_free_surface_walks"), ("smoothing", "water_tools.py:_smooth_free_surface"), ("flooding", "water_tools.py:flooding_correction")],
  state="stage", observe_at="state between documented stages")

p("C15", "Flow fields stay mutually consistent after every step",
  "After every update, in every cell, the water surface is not below the sea level used in that step, depth is the non-negative difference between water surface and bed, flow speed is the magnitude of its components and does not exceed twice the inlet velocity, and all values are finite. "
  "After every routing iteration dry cells carry no flow velocity, discharge is the configured underrelaxation of old and newly routed discharge, and the inlet row carries the configured inflow with the configured depth after the step. "
  "Ending a step changes the water surface only by flooding dry shore cells up to a wet neighbour's surface and by raising it to sea level.",
  ["histories", "configurations"],
  "all explored parcel choices, step histories and configurations (sea-level rise and fall, subsidence, underrelaxation, iteration counts) up to the bound",
  "Tests check end states of a few seeded runs.",
  ["water_tools.py", "iteration_tools.py", "sed_tools.py"],
  [("discharge", "water_tools.py:update_flow_field"), ("velocity", "water_tools.py:update_velocity_field"), ("end of step", "iteration_tools.py:finalize_timestep")],
  state="stage, depth, discharge and velocity grids", observe_at="state between documented stages")

p("C16", "Sediment volume is conserved by every parcel",
  "The sediment volume fed in each step is split into equal parcels, shared between sand and mud by the bedload fraction with each share of the configured number of parcels rounded down, and for each parcel the volume it started with equals what it leaves on the bed, less what it erodes, plus what it carries out at its end, so that the total bed change of routing equals net deposition. "
  "A single visit never changes a cell by more than a quarter of its local water volume, never deposits more than the parcel carries and never deposits above the water surface, and recorded sand and mud deposits equal the positive bed changes.",
  ["inputs", "histories"],
  "all parcel walks up to the deviation bound on small domains in deposition, erosion, shallow and emergent regimes, for all bedload fractions and parcel counts in the alphabet",
  "Tests check isolated deposition calls; conservation over all walks and regimes is a global relation.",
  ["sed_tools.py"],
  [("parcel loop", "sed_tools.py:SandRouter/MudRouter"), ("volume limit", "sed_tools.py:_limit_Vp_change"), ("bed update", "sed_tools.py:_update_fields"), ("parcel split", "sed_tools.py:route_all_sand_parcels/route_all_mud_parcels")],
  state="bed, deposit volumes, parcel volume", observe_at="state between documented stages")

p("C17", "Sediment moves, settles and erodes by the documented rules",
  "Sediment parcels start in the inlet and move only to neighbouring non-land cells, preferring wet ones by inertia and depth, until the open boundary or the step limit. "
  "At each visit sand deposits when the local sand flux exceeds the transport capacity and erodes only when flow is faster than the sand threshold and below capacity, mud deposits only when slower than the mud deposition threshold and erodes only when faster than its erosion threshold, by the documented amounts, and depth and velocity of the cell are updated at once.",
  ["inputs", "histories"],
  "all walks up to the deviation bound and all regimes of velocity, flux, depth and erosion modifier in the alphabet",
  "Tests exercise each branch once with hand-picked values.",
  ["sed_tools.py", "shared_tools.py"],
  [("next cell", "sed_tools.py:_choose_next_location/_get_weight_at_cell_sediment"), ("sand rule", "sed_tools.py:SandRouter._deposit_or_erode"), ("mud rule", "sed_tools.py:MudRouter._deposit_or_erode")],
  state="bed, depth, velocity, sediment flux", observe_at="state between documented stages")

p("C18", "Bed surface composition follows deposits and erosion",
  "After every step, each cell that received a deposit (any sand, or more than a negligible 1e-6 cubic metres of mud) has the sand fraction of that step's deposit mixture, which also becomes its active-layer value. Without a deposit, a cell whose bed was lowered within the active layer takes the stored active-layer value, one lowered below the active layer takes the configured boundary value, and every other cell is unchanged. "
  "The sand fraction therefore always lies between zero and one or equals the boundary value.",
  ["inputs", "histories"],
  "all combinations of bed change, deposit volumes, active-layer thickness and boundary value in the alphabet, over sequences of steps up to the bound",
  "Tests apply single changes; sequences through the active layer are not enumerated.",
  ["iteration_tools.py", "init_tools.py"],
  [("composition update", "iteration_tools.py:compute_sand_frac")],
  state="sand fraction, active layer", observe_at="state after update")

p("C19", "Subsidence and sea level act at the configured rate and time",
  "With subsidence on, every step that begins at or after the start time lowers each cell of the subsiding area (everything outside the land rows) by rate times time step and no other cell, and steps before it lower nothing. "
  "Sea level after any number of steps equals its initial value plus the rise rate in force integrated over the elapsed time, whatever the configuration or resumption history.",
  ["histories", "configurations"],
  "all histories of steps, rate changes, time-step changes and resumes up to the bound, for start times before, at, between and after step times",
  "Tests check one start time and one step.",
  ["iteration_tools.py", "init_tools.py", "model.py"],
  [("subsidence", "iteration_tools.py:apply_subsidence"), ("field", "init_tools.py:init_subsidence"), ("sea level", "iteration_tools.py:finalize_timestep")],
  state="bed, sea level", observe_at="state around the subsidence stage and after update")

p("C20", "Exactly the selected figures, grids and metadata are written",
  "For every combination of output switches, and after any sequence of turning figure switches on and off during a run, each save writes exactly the figures currently switched on, and the output file contains exactly the selected grids (with metadata whenever any grid is saved or metadata is requested, and no file at all when nothing is). "
  "Sequential figures are kept one per save numbered by save index, non-sequential ones are overwritten in place.",
  ["histories", "configurations"],
  "all subsets of switches that interact, all single and paired toggles and all toggle sequences up to the bound",
  "Tests toggle few switches in isolation.",
  ["model.py", "iteration_tools.py", "init_tools.py"],
  [("switches", "model.py:save_*_figs/save_*_grids setters"), ("writing", "iteration_tools.py:save_grids_and_figs/save_figure")],
  state="save lists, output folder", observe_at="files and netCDF variables")

p("C21", "Topographic diffusion moves bed only along sand flux",
  "Diffusion after sand routing exchanges bed volume between neighbouring cells in proportion to their sand flux and elevation difference, with the configured coefficient and number of repetitions, so that interior exchanges conserve volume and smooth the bed. "
  "Land cells and the first row never change (they still act as neighbours), and with no sand flux or zero coefficient nothing changes.",
  ["inputs"],
  "all small patterns of bed elevation, sand flux and cell type over the alphabet, including domain borders",
  "Tests only check that the bed changed or a single value.",
  ["sed_tools.py", "init_tools.py"],
  [("diffusion", "sed_tools.py:topo_diffusion"), ("coefficient", "init_tools.py:create_boundary_conditions")],
  state="bed", observe_at="state around the diffusion stage")

p("C22", "Existing results are never overwritten unless asked",
  "A new run refuses to start, with an error and without touching any existing result, when its output folder already holds an output file that it would write and overwriting was not requested; when requested, the file is replaced, with a warning, by one holding only the new run's records. "
  "Resuming without a checkpoint is an error that changes nothing, runs write only into their own output folder and leave every other file in it alone, and a dry run executes no model.",
  ["histories", "configurations"],
  "all sequences of fresh, clobbering, non-saving and resumed runs and of removals of the output file on one folder up to the bound, all output selections and spellings of the folder",
  "Tests start one run in a folder with one existing file.",
  ["init_tools.py", "preprocessor.py"],
  [("refusal and replacement", "init_tools.py:init_output_file"), ("resume", "init_tools.py:load_checkpoint"), ("dry run", "preprocessor.py:run_jobs")],
  state="output folder", observe_at="files before and after each run")

open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write(
    "".join(json.dumps(x) + "\n" for x in P))
print(len(P))
