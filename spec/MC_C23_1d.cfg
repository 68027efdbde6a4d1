SPECIFICATION Spec
CONSTANTS Shape <- N3
 Amps <- Tern
 MaxSteps = 3
INVARIANTS Encoded Frames SplitStack NeighbourLaw Fluxes Viscous Centred
CHECK_DEADLOCK FALSE
