CONSTANTS D = 2
Entries <- E2
MaxDet = 4
NOrb = 1
Hops = 1
Amps <- A1
MaxHops = 3
MaxLevels = 1
SPECIFICATION Spec
VIEW View
INVARIANTS Partition Classes KeepsHermitian Conserved Direct Waves
CHECK_DEADLOCK FALSE
