SPECIFICATION Spec
CONSTANTS Shape <- N22
 Amps <- Bit
 MaxSteps = 1
INVARIANTS Encoded Frames SplitStack NeighbourLaw Fluxes Viscous Centred
CHECK_DEADLOCK FALSE
