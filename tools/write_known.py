import json
F = [
("C01","b8b7f29","periodic run with limiting at the domain seam lost mass: the two copies of a periodic face got different fluxes"),
("C17","676ab89","a physical range given for one variable was overwritten by the next: only the last variable was checked"),
("C22","8ac417f","trouble record of the first step averaged over one stage too many"),
("C22","ad16ad9","trouble record had one value per variable and broadcast incorrectly instead of one per cell"),
("C07","d9cfafa","double-Mach wall raised TypeError when applied"),
("C10","f0001b4","SSPRK2 evaluated its second stage at the wrong time: first order for time-dependent right-hand sides"),
("C13","53c8212","saving a run started from conserved cell averages raised TypeError (NotImplemented is not JSON serialisable)"),
("C11","822ccf3","output times at or before the current time were targeted: negative steps, endless run"),
("C10","8b3ead0","time-dependent boundaries were evaluated at the beginning of the step in every Runge-Kutta stage"),
("C05","2f21b79","periodic ghost zones wider than the domain were filled with uninitialised memory"),
("C07","79e8f95","mirrored ghost zones wider than the domain were filled with uninitialised memory"),
("C07","e35158c","one-sided periodic and unknown boundary types were accepted and left ghost cells uninitialised"),
("C04","bc8a36f","smooth extrema detection treated the two sides of a cell differently: flags were not mirror symmetric"),
("C25","3a62f38","the batch wrapper could not be imported"),
("C22","79fb538","plot_fields in 2D asked for variable names that do not exist"),
("C22","e9cd3e0","plotting functions refused lists of snapshots"),
("C22","f86a1f0","overlay_trouble=True raised in plot_1d_slice/plot_2d_slice"),
("C13","8114fc4","snapshot_times stayed empty when snapshots were read back"),
("C23","6a524f7","passive scalars named like flow variables or twice were accepted and hid them"),
("C23","dde246d","a refused timer category left the timer changed: earlier categories of the same call stayed running"),
("C24","41ea6c3","progress_bar=False was ignored by runs of n steps"),
("C04","7667fc0","HLLC treated the two sides differently for non-physical face states reached from a valid blast: runs lost mirror symmetry"),
("C11","89e9638","t + (target - t) is not always target: runs ended one unit in the last place past T, or took extra or backward steps of that size"),
("C27","1ff14b4","minmod treated differences below 1e-16 as noise: a problem in units that make its numbers small lost its slopes and evolved differently"),
("C11","a768984","a run given both a number of steps and an end time ignored the number of steps, though documented to ignore everything else"),
("C13","395e427","saving a run whose mesh size, degree or options were NumPy scalars raised TypeError after the simulation"),
("C15","1b69342","conversion of whole-number arrays truncated the result (energy 2.5 became 2)"),
("C22","ed95131","radial averages with whole-number bin edges were truncated, or raised for empty bins"),
]
with open("/verif/known_findings.jsonl","w") as f:
    for k, w in [("density_floor","density_floor is accepted but never applied: interpolated densities below the floor reach the Riemann solver unchanged"),
                 ("pressure_floor","pressure_floor is accepted but never applied: interpolated pressures below the floor reach the Riemann solver unchanged"),
                 ("fixed_primitive_variables","fixed_primitive_variables is accepted but never applied: variables declared fixed change")]:
        f.write(json.dumps(dict(status="known",property="C24",key=k,what=w))+"\n")
    for p,c,w in F:
        f.write(json.dumps(dict(status="fixed",property=p,commit=c,what=w,line=f"fixed: property={p} {c} {w}"))+"\n")
