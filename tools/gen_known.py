import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """bdf4c31 C01 time since the last save was truncated to an integer on resume, so later saves happened at other steps
8e21b86 C02 units and other attributes of variables were lost from the output file when resuming
0119192 C04 the output file was deleted and rewritten in place when resuming; a crash lost all saved records
d081470 C04 the checkpoint was overwritten in place; a crash while writing lost it
5125fd5 C20 switching the velocity figure off left it being saved
e671236 C11 a changed bedload fraction did not reach the sediment routers
4028be0 C19 subsidence per step was not rescaled when a boundary condition changed the time step
d791f03 C11 diffusion was not rescaled when the time step was set
b61f951 C06 jobs of a batch shared one random sequence, so results depended on the other jobs
f5e052c C09 timesteps jobs ran one step more or less than configured through rounding of accumulated time
d93f0a2 C09 a directly given duration did not override the one in the input file
e79ff2d C07 job table columns of a set did not match their headings
75d7aaf C07 ensemble expansion modified the matrix given by the user
985801d C07 out_dir in a set, or seed in a set together with an ensemble, was accepted
df48663 C07 strings such as '1e5' or 'yes' did not read back from the written job configuration
e6f95f9 C08 joining parallel jobs before reading their messages could deadlock
e1cb20e C08 jobs failing with other errors than RuntimeError/ValueError ended the batch and were not finalized
3e5f41c C13 relocation of a looped parcel used the position of the previous parcel
8e53de8 C10 explicit null was rejected for parameters documented to allow it
ffca368 C10 an empty input file was rejected
4b73043 C02 user-added variables were no longer saved after resuming
69563a8 C10 itermax of zero, which is accepted, failed with a division by zero
2967d38 C10 an unknown parameter given together with a Preprocessor-only one was silently ignored
c62dd2c C10 a configured basin depth of zero was replaced by the channel depth
b822160 C14 with a sea level below zero dry shore cells were flooded up to zero although no wet neighbour reached them
f7f350d C13 a step limit below four overran the record of parcel paths (IndexError)
7c2b8c9 C17 sediment parcels in the first row with only dry cells downstream could step out of the domain
0bee44a C03 a resumed run wrote an extra checkpoint at its first step whatever the checkpoint interval
c7801c3 C22 a record of fill values was left in the output file when a run was resumed twice from one checkpoint after the file had been removed"""
out = []
for l in F.splitlines():
    h, p, w = l.split(" ", 2)
    out.append(dict(id="fixed-" + h, property=p, status="fixed", commit=h, what=w, line="fixed: property=%s %s %s" % (p, h, w)))
EXTRA = [dict(id="known-offgrid-first-row", property="C13", status="known",
              signature="in the first row the diagonal directions out of the domain get the weight of the lateral water-surface slope",
              what="water_tools._get_weight_at_cell_water: where the water surface of the inlet row slopes laterally, parcels in the first row get positive "
                   "probability for the diagonal upstream directions and leave the grid (negative index); repairing it changes the values pinned by "
                   "tests/integration/test_consistent_outputs.py::test_long_multi_validation, so it is recorded and not repaired",
              where="pyDeltaRCM/water_tools.py:_get_weight_at_cell_water")]
json.dump(out + EXTRA, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
