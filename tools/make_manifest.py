import json
T='seeded deterministic simulation with fault injection; '
N={
'C01':(T+'water-balance invariant over every recorded sub-step','Holds on every simulated season of the run (seeded random search, not exhaustive). Trusts the harness forcing conversion and the reference model only for classifying the two recorded findings.'),
'C02':(T+'energy-closure invariant over every recorded sub-step','Random search. Trusts published latent-heat and heat-capacity formulas re-stated in the harness.'),
'C03':(T+'well-formedness invariant and bounded progress','Random search. Full invariant demanded only in configurations whose small step resolves the melt; no-negative-depth demanded everywhere.'),
'C04':(T+'step plan of an independent scheduler vs recorded steps','Random search; masses within 1e-9 of a threshold are not judged.'),
'C05':(T+'paired simulations of one season under different fault schedules','Random search; records compared to 1e-9.'),
'C06':(T+'time-line metamorphic relations over whole-program runs (clock jumps, moved and extended periods, scrambled future)','Random search.'),
'C07':(T+'crash/restart across processes, bit comparison with the uninterrupted run','Random search over cut and kill points; durable state is the pickled model.'),
'C08':(T+'seeded statement-level thread scheduler, bit comparison with solo runs','Random search over interleavings; interleaving inside numpy/pandas calls is not explored.'),
'C09':(T+'kill/fail/abort at seeded points, then re-run and compare bytes','Random search over crash points at executed-line granularity.'),
'C10':(T+'faulty disk under the output file, byte comparison with the records','Random search over fault byte positions; disk seam is the interpreter open().'),
'C11':(T+'faulty, torn and re-arranged forcing files vs the clean run','Random search; a number cut short at the very end of a torn file is only excluded from the rows that use it.'),
'C12':(T+'impossible, supersaturated and dead-calm sensor records at seeded positions, reference model as oracle','Random search; one recorded finding (K3).'),
'C13':(T+'forcing shares of every recorded sub-step vs an independent interpolator','Random search; judged through flux and mass effects of the forcing.'),
'C14':(T+'refinement of an independent executable reference model, step by step','Random search; non-converged or knife-edge steps are compared on unaffected terms only.'),
'C15':(T+'whole-program runs observed through the output file vs the reference model started from the same configuration','Random search over configurations.'),
'C16':(T+'flux-direction invariants over every recorded sub-step','Random search.'),
'C17':(T+'paired simulations: history with a lost pack vs fresh start','Random search; differences that nudging the forcing by 1e-4 also produces are attributed to rounding.'),
}
m={'version':1,'setup_cmd':'python3 sim/main.py C04 --n 8 --no-evidence',
'checks':[{'property':p,'quick_cmd':'python3 sim/main.py %s --tier quick'%p,'thorough_cmd':'python3 sim/main.py %s --tier thorough'%p,'evidence_file':'evidence/%s.json'%p,'technique':t,'level':'exploration','level_note':n} for p,(t,n) in sorted(N.items())],
'not_applicable':[
 {'property':'C18','reason':'The gridded model cannot run in this tree: its driver imports netCDF4 (not installed) and its step code raises NameError before the first time step, so there is no execution to simulate or inject faults into.'},
 {'property':'C19','reason':'Pure scalar functions: no concurrency, clock, I/O, state or multi-party behaviour for a schedule or fault to act on. Their values are constrained indirectly through C14.'}],
'notes':'No hooks were added to /repo: the simulator uses existing seams (do_data_tstep, output_list, open(), process boundaries, sys.settrace). Commits in /repo are fix: commits only. Known findings: known_findings.jsonl.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1);open('/verif/MANIFEST.json','a').write('\n')
