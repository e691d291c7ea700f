import json
P=[]
SN='pysnobal/point/snobal.py'; IN='pysnobal/point/input.py'; SS='pysnobal/point/snow_state.py'; LB='pysnobal/point/libsnobal.py'; DR='pysnobal/pysnobal.py'; FN='pysnobal/core/functions.py'; SW='pysnobal/core/snow.py'
T14="The stable tests run two shipped configurations end to end plus unit tests of single helper functions at hand-picked values; "
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(observe),"hook_needed":hook}})
p("C01","Water is neither created nor destroyed",
"Over every reported model step the change in snowpack mass equals precipitation received plus evaporation/condensation (signed) minus surface water input, to rounding, including while the pack forms, is rained on, refreezes, compacts, loses a layer or vanishes. Runoff and melt are never negative, and on bare ground all liquid precipitation runs off in the step it falls.",
["inputs","configurations","histories","crash_points","fault_sequences"],
"every configuration whose small step resolves the melt, every valid weather sequence and initial pack, every restart point; two recorded exceptions (known findings K1, K2) where a step reports the pack's liquid twice",
T14+"a year of one site touches few combinations of layer change, wetness, step level and precipitation phase, and no test sums the balance.",
[SN,IN,SS],[("mass balance sequence",SN+":mass_balance, h2o_compact, snowmelt, evap_cond, runoff"),("new snow and rain entering",SN+":precip_event, adj_snow"),("layer split/merge/removal",SN+":adj_layers, "+SS+":layer_mass")],
[("m_s, m_s_0, m_s_l","pack and layer mass",SS),("h2o","liquid water held",SS),("swi_sum, E_s_sum, melt_sum","per-output totals",SS)],["output records (output_list / output csv)"])
p("C02","Energy budget closes and heat is conserved by layer changes",
"In every reported step the surface and whole-pack energy sums equal the reported flux terms (net radiation, sensible, latent, advected, soil and inter-layer heat), and the change in cold content plus the energy spent on melt or released by refreezing and carried by mass exchange accounts for that sum. Splitting, merging or rescaling layers moves heat between them without creating any.",
["inputs","configurations","histories","fault_sequences"],
"every resolved configuration, valid weather sequence, initial pack and restart point",
T14+"they compare outputs with a stored run and never close the budget.",
[SN,SS],[("energy balance",SN+":energy_balance, advec, g_soil, g_snow, h_le"),("cold content bookkeeping",SN+":snowmelt, mass_balance, adj_layers"),("layer temperatures",SS+":adjust_layer_temps")],
[("cc_s_0, cc_s_l","layer cold content",SS),("t_s_0, t_s_l, t_s","temperatures tied to cold content",SS)],["output records"])
p("C03","The snowpack is always physically well formed and the run makes progress",
"After every step mass, depth, density, liquid and saturation lie in their physical ranges, layer masses and depths add up to the pack, cold content matches temperature and mass, nothing is warmer than melting, and a pack that is gone leaves nothing behind (no ghost layer, negative depth or liquid). Valid forcing in a configuration that resolves the melt always completes the interval in bounded work instead of aborting or hanging.",
["inputs","configurations","histories","crash_points","fault_sequences"],
"every valid weather sequence and initial pack; 'no negative depth or mass, no ghost pack' even in configurations too coarse to resolve the melt",
T14+"the run tests stay in one climate, so layer transitions at the thresholds, saturated, very dense or vanishing packs are barely visited.",
[SN,SS],[("layer computation",SS+":calc_layers, layer_mass"),("layer adjustment",SN+":adj_layers, below_thold"),("compaction and density limit",SN+":time_compact, h2o_compact, adj_snow")],
[("layer_count, z_s*, m_s*, rho, h2o*","pack geometry and mass",SS)],["output records","exceptions from the model"])
p("C04","Sub-steps follow the mass thresholds and tile every data interval exactly",
"Each step has the coarsest configured length at which every existing layer holds at least that level's mass threshold (the normal step if there is no snow), and a finer level is kept only until the enclosing step is used up. The sub-steps of an interval are contiguous, never overlap or leave a gap, and end exactly at the next data record.",
["configurations","inputs","histories","crash_points"],
"every step/threshold family and every sequence of layer masses, including crossing thresholds in the middle of an interval",
T14+"gold runs use one step family and compare end-of-hour values only, with a tolerance that hides a wrong level.",
[SN,DR],[("recursive division",SN+":do_data_tstep, divide_tstep, below_thold"),("step table",DR+":parse_time_steps")],
[("current_datetime, current_level","model clock and level",SN)],["date_time and time_since_out of records in 'all' mode"])
p("C05","Output cadence never changes the simulation",
"Running the same forcing with per-step output or once-per-interval output gives the same snowpack at every common instant. Each interval record's totals are the sums, and its fluxes the time-weighted means, of the step records inside the interval.",
["inputs","configurations","schedules","crash_points"],
"every valid scenario, each output mode under its own sequence of crashes, restarts and rejected records",
T14+"only one mode passes its test on this tree (the 'all' mode test is not stable), and none relates the two.",
[SN,SS,DR],[("time averaging",SS+":time_average, value_to_bar"),("emission and reset",SN+":do_tstep, output, init_output"),("mode selection",DR+":parse_time_steps, parse_params")],
[("time_since_out","time accumulated since last output",SN)],["output csv of two runs"])
p("C06","The run covers exactly the configured period, in order, at the right times",
"A run writes exactly one row per interval from start_date to end_date (inclusive), strictly increasing and stamped with the end of its interval in the configured time zone, also across daylight-saving changes; forcing that does not cover the period or has records not one normal step apart is refused. No row depends on records after its interval's end. Moving the whole period in time, extending its end or adding data outside it leaves the rows' physics unchanged.",
["inputs","configurations","histories"],
"every period, zone, step length, spacing of records and extra data outside the window",
T14+"two fixed periods in fixed zones; look-ahead and shift invariance need pairs of runs.",
[DR,SN],[("window clip and tz",DR+":parse_params, read_input_data"),("record pairing",DR+":run"),("model clock",SN+":do_tstep")],
[("current_datetime","model clock",SN)],["date_time column of the output csv"])
p("C07","Checkpoint, crash and resume continue exactly",
"A model saved between two intervals and restored later, in the same or a fresh process and however many other models ran there meanwhile, produces exactly the records the uninterrupted run would have produced. All state that influences the future travels with the saved model: nothing lives in the process.",
["crash_points","histories","schedules"],
"every cut point, any number of crashes (also in the middle of an interval, resuming from the last checkpoint), any process history",
T14+"no test stops and continues a run.",
[SN,SS,IN],[("instance-owned state",SN+":__init__, init_snow"),("snow state objects",SS)],
[("snow_state, output_list, input1, input2, current_datetime","everything a resumed run needs",SN)],["output_list after resume"])
p("C08","Independent models never influence each other",
"Any number of model instances advanced in any interleaving, in one thread or many, each give exactly the results they give alone. Their inputs, parameters and configuration are not shared or altered behind the caller's back.",
["schedules","histories"],
"every interleaving of 2..4 instances at statement granularity, including instances built from one shared configuration or sharing forcing objects",
T14+"each test runs one instance in one thread.",
[SN,IN,SS,DR,LB],[("per-instance state",SN+":__init__"),("deltas per interval",IN+":InputDeltas.calculate"),("working copy of the inputs",SN+":do_data_tstep")],
[("module and class level state","must not exist in mutable form","package")],["output_list of each instance"])
p("C09","Re-running and retrying are idempotent",
"Running the same driver object or a new one from the same configuration again, after success, after an aborted run or after a crash at any point, gives byte-identical output. A run never alters the caller's configuration, forcing file or any object passed to it.",
["crash_points","histories","fault_sequences"],
"every crash point of the run (statement granularity), output write failures, impossible records later corrected, repeated runs",
T14+"each test runs a configuration once.",
[DR,SN],[("fresh model per run",DR+":run"),("config kept read-only",DR+":run, parse_params, parse_time_steps")],
[("config, input_data, params, tstep_info","caller and driver state reused by a second run",DR)],["output csv bytes","config contents"])
p("C10","The output file is complete, faithful and never silently wrong",
"When a run reports success its output file holds exactly the simulated records: every row and column, in order, Celsius temperatures, full precision or the documented fixed formats, replacing any older file completely. A failing disk (full, I/O error, short write, failing close) makes the run raise; a crash leaves the old file, or a prefix of the new one, never a mixture or reordering.",
["fault_sequences","crash_points","inputs","configurations"],
"every fault position in the output stream, every older file content, both formats and output modes",
T14+"they write to a healthy disk and read a few columns back.",
[DR],[("output assembly and write",DR+":output_to_file")],
[("output_list","records simulated",SN)],["output csv bytes after the run"],None)
p("C11","Forcing is read faithfully or the run fails",
"Row order, column order, extra columns, rows outside the run period, and short or interrupted reads do not affect results. A read error, or a missing, non-numeric, infinite or truncated required value inside the period, makes the run fail rather than produce rows computed from data that was not in the file.",
["fault_sequences","inputs"],
"every permutation/embedding of a forcing file and every torn, unreadable or partially missing variant",
T14+"one clean, sorted input file is used.",
[DR],[("reading, sorting, clipping, missing-value check",DR+":read_input_data, check_missing, map_input_data")],
[("input_data","forcing table",DR)],["output csv; exception"])
p("C12","Impossible forcing stops the run at once; supersaturated air is clipped",
"Forcing under which a flux cannot be computed (vapour pressure not positive, air temperature at or below absolute zero, sensors buried, snowfall without density) aborts the run with an error while snow is involved, leaves already reported records intact and writes no output file. Supersaturated vapour pressure gives exactly the result of saturation, and a turbulent-exchange solution that did not converge is reported.",
["inputs","fault_sequences","histories"],
"every kind of broken record at every position of every run; known finding K3: non-convergence is never reported",
T14+"error paths are never driven through a run.",
[SN,LB,DR],[("checks in the turbulent transfer",LB+":hle1, "+SN+":h_le"),("clip of vapour pressure",SN+":h_le"),("snowfall checks",IN+":precipitation_inputs")],
[],["exception, output_list, output file"])
p("C13","Interval forcing is apportioned exactly over the sub-steps",
"Within an interval radiation, temperature, vapour pressure, wind and soil temperature vary linearly between the two bounding records, each sub-step using its own midway-consistent value, and precipitation is shared in proportion to time with its phase, density and temperature unchanged. The shares of an interval add up to the interval's total whatever mix of step lengths is used.",
["inputs","configurations","histories"],
"every family of step lengths, every mixture of levels inside an interval, every precipitation phase",
T14+"deltas are only exercised through one gold run.",
[IN,SN],[("deltas",IN+":InputDeltas.calculate, add_deltas, update_precip_deltas"),("phase split",IN+":precipitation_inputs"),("use per sub-step",SN+":divide_tstep, do_tstep")],
[("input1","current forcing",SN)],["records in 'all' mode"])
p("C14","The model refines the published Snobal equations step by step",
"From any reported snowpack state and forcing, the next reported state, fluxes and totals are those of the published two-layer Snobal equations (energy balance, turbulent exchange, melt, compaction, drainage, layering), within stated numerical tolerance. This holds at every step of every history, including ones that follow crashes, restarts and rejected records.",
["inputs","configurations","histories","crash_points"],
"every reachable state reached by the simulated seasons; steps at a numerical knife edge or with a non-converged exchange iteration are compared on the unaffected terms only",
T14+"one gold year at 1e-3..1 tolerance leaves most branches unconstrained.",
[SN,LB,SS,IN,FN,SW],[("step function",SN+":do_tstep"),("turbulent transfer",LB+":hle1")],
[],["records in 'all' and 'normal' mode"])
p("C15","Every configured value takes effect, in its documented unit",
"Elevation, sensor heights and their reference, step lengths and thresholds, liquid-water limit, active-layer depth, initial snow properties and output options given in the configuration file govern the run exactly as documented, in their documented units. Equivalent ways of stating a setting (file or parsed object, default left out or written out, sensor heights absolute or relative over bare ground) give identical output; a configuration that is incomplete, outside its documented types and options or whose steps are not positive or do not divide evenly is refused with a failing exit.",
["configurations","inputs"],
"every configuration in the admissible ranges, observed only through configuration file, forcing file and output file",
T14+"two configurations that leave most options at one value.",
[DR,SN,"pysnobal/pysnobal_core_config.ini"],[("parsing and passing on",DR+":parse_params, parse_time_steps, run"),("use",SN+":__init__, init_snow")],
[],["output csv against the reference model started from the ini"])
p("C16","Fluxes flow in the physically right direction",
"Sensible heat flows from warm to cold between air and surface, latent heat follows the vapour gradient and is consistent with the evaporated or condensed mass, and soil and inter-layer heat flow down the temperature gradient. Melt and runoff of pack water occur only when their energy and water are there, and a warmer, calmer or drier environment does not reverse a sign.",
["inputs","configurations","histories"],
"every simulated sub-step",
T14+"sign errors in rarely visited stability branches are not sampled.",
[SN,LB],[("turbulent transfer",LB+":hle1"),("conduction",LB+":ssxfr, "+SN+":g_soil, g_snow")],[],["output records"])
p("C17","Bare ground has no memory",
"Once the snow is gone the model forgets it: from that instant the run continues like one that never had snow, so the next pack that forms depends only on the forcing from then on. Rows written while no snow is on the ground report no snow quantities.",
["histories","inputs","crash_points"],
"every history of packs that melted, evaporated or were compacted away, followed by any weather",
T14+"the gold year melts out once, at its end.",
[SN,SS],[("reset on melt-out",SS+":calc_layers, "+SN+":adj_layers, evap_cond"),("new pack",SN+":precip_event, init_snow")],[],["output records of paired runs"])
p("C18","The gridded model equals independent point models",
"Running the spatial model over a grid gives, in every cell, the result of the point model run with that cell's forcing and parameters.",
["inputs","configurations"],"every grid, mask and forcing",
"No test runs the spatial model.",
["pysnobal/spatial/isnobal.py","pysnobal/spatial/snow_state.py","pysnobal/ipysnobal.py"],[("vectorised step","pysnobal/spatial/isnobal.py")])
p("C19","Thermodynamic helper functions match their closed forms",
"Saturation vapour pressure, specific humidity, effective conduction, density and unit conversions equal their published formulas over their whole physical range.",
["inputs"],"every argument in range","Helper tests sample a handful of arguments.",
[LB,FN,SW,"pysnobal/utils.py"],[("formulas",LB+", "+FN)])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
