CONSTANTS D = 2
Entries <- E3
MaxDet = 4
NOrb = 1
Hops = 1
Amps <- A1
MaxHops = 2
MaxLevels = 1
SPECIFICATION Spec
VIEW View
INVARIANTS Partition Classes KeepsHermitian Conserved Direct Waves
CHECK_DEADLOCK FALSE
