---- MODULE DWClientMC1 ----
EXTENDS DWClientMC
MCCfg == [nt |-> 1, ns |-> 2, pps |-> 2, per |-> <<1, 0>>, tries |-> 2, pause |-> 1, lo |-> 1, hi |-> 1, ch |-> <<>>, pso |-> FALSE, grain |-> 0, ramp |-> 0, rates |-> <<>>, cycle |-> FALSE, auto |-> FALSE, stag |-> -1, ct |-> FALSE]
MCCfg2 == [nt |-> 2, ns |-> 1, pps |-> 2, per |-> <<1>>, tries |-> 2, pause |-> 1, lo |-> 1, hi |-> 1, ch |-> <<>>, pso |-> FALSE, grain |-> 0, ramp |-> 0, rates |-> <<>>, cycle |-> FALSE, auto |-> FALSE, stag |-> -1, ct |-> FALSE]
MCCfg3 == [nt |-> 1, ns |-> 1, pps |-> 3, per |-> <<>>, tries |-> 2, pause |-> 1, lo |-> 1, hi |-> 1, ch |-> <<>>, pso |-> FALSE, grain |-> 0, ramp |-> 2, rates |-> <<1000000, 500000, 330000>>, cycle |-> FALSE, auto |-> FALSE, stag |-> 1, ct |-> FALSE]
MCCfg4 == [nt |-> 2, ns |-> 1, pps |-> 2, per |-> <<>>, tries |-> 1, pause |-> 1, lo |-> 1, hi |-> 1, ch |-> <<>>, pso |-> FALSE, grain |-> 0, ramp |-> 2, rates |-> <<500000, 1000000>>, cycle |-> TRUE, auto |-> FALSE, stag |-> 1, ct |-> FALSE]
One == {1}
Two == {1, 2}
====
