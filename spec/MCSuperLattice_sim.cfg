CONSTANTS D = 2
Entries <- E2
MaxDet = 6
NOrb = 1
Hops = 1
Amps <- A1
MaxHops = 2
MaxLevels = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
