TECH = {
 'default': 'explicit-state enumeration of the real library over all data states (letter multisets), builder and fit options within bounds; an independent reference GLM evaluated in every state',
}
NOTE = {
 'default': 'Exhaustive within the stated bounds (small data worlds, finite letters and option values); values are compared with tolerances calibrated against the unchanged tree. Assumes behaviour outside the bounds is represented by them; trusts the reference model, rustc and LAPACK.',
}
