SPECIFICATION Spec
CONSTANTS Shape <- N43
 Amps = {0, 1}
 Filled = 2
 MaxOps = 2
INVARIANTS Follow SpectrumLaw Shells Correlation Curl NoCurl Unitary Quantiles Distances
CHECK_DEADLOCK FALSE
