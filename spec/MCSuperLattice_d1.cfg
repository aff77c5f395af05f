CONSTANTS D = 1
Entries <- E1
MaxDet = 6
NOrb = 2
Hops = 1
Amps <- A2
MaxHops = 2
MaxLevels = 2
SPECIFICATION Spec
VIEW View
INVARIANTS Partition Classes KeepsHermitian Conserved Direct Waves
CHECK_DEADLOCK FALSE
