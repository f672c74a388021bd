R="explicit-state exploration of the real code, "
TECH={
"M01":(R+"parameter departures vs stated guarantees",),
"M02":(R+"all call histories up to a depth",),
"V01":(R+"all edit words vs reference predicate",),"V02":(R+"all edit words vs reference predicate",),"V03":(R+"all edit words vs reference predicate",),
"V04":(R+"every stage x every edit word of its tables vs reference predicate",),
"N01":(R+"all fiber words and alphabets vs closed-form crossing model",),"N02":(R+"all fiber words and alphabets vs nearest-point model",),
"N03":(R+"all words of symmetry generators, differential",),
"S01":(R+"all piles and connection subsets vs least-fixed-point model",),"S02":(R+"all stacking histories vs reference network",),
"S03":(R+"all piles and connection subsets, dual invariants",),
"H01":(R+"all connection words vs reference mesh",),
"K01":(R+"all meshes and option departures vs element-sum model",),"K02":(R+"all meshes and option departures, energy invariants",),
"C01":(R+"all meshes, height and thickness patterns vs inequality model",),"C02":(R+"all stacking histories, feasibility invariant",),
"X01":(R+"state invariants of the active-set machine in every reached state",),"X02":(R+"state invariant of the active-set machine",),
"X03":(R+"transition invariants of the active-set machine, all limits and targets",),
"X04":(R+"differential over solvers, permutations and resampling",),
"X05":(R+"all faulty-answer sequences of the solver environment up to two departures",),
"X06":(R+"all changes of units, orientation, order and names of every scenario vs the original run",),"X07":(R+"all pairs and triples of separate piles vs the piles alone",),
"P01":(R+"recorded states of all scenarios x orders x solver answers vs classes by definition",),
"I01":(R+"all sample sequences vs piecewise reference",),
"R01":(R+"parameter departures and fiber words vs cylinder model",),"R02":(R+"all unit fields on all meshes vs Hermite model",),
"R03":(R+"all fiber words vs nine-copy model",),
"W01":(R+"all action words on the settings state machine (tours and fresh histories)",),
"W02":(R+"departures of shared settings vs explicit arguments",),
"W03":(R+"every set of given arguments in every presentation (omitted, spelled out, by position) vs documented defaults",),
"W04":(R+"all histories of clicks and command outcomes vs the state machine of a button",),
"G01":(R+"all stage-call words on shared objects",),"G02":(R+"all words of rebuilding operations",),
}
NOTE="Exhaustive over the alphabets and bounds reported in the evidence (DESIGN.md, section 2); every state is an execution of the real code compared with an independent reference. Trusts NumPy, SciPy, pandas%s and the reference in mc/."
TECH={k:(v[0],NOTE%(", PyVista" if k[0]=="R" else "")) for k,v in TECH.items()}
