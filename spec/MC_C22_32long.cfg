SPECIFICATION Spec
CONSTANTS Shape <- N32
 Amps <- Tern
 Filled = 2
 MaxOps = 3
INVARIANTS Follow SpectrumLaw Shells Correlation Curl NoCurl Unitary Quantiles Distances
CHECK_DEADLOCK FALSE
