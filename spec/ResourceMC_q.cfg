CONSTANT SelfErr <- MSelfErr
CONSTANT MaxMods = 2
SPECIFICATION Spec
VIEW ViewV
INVARIANTS KeysUnique TreeValid RejectedUntouched Frame ReadOnlyKept NoMissedChange NoFalseChange GenStep KeyAddresses
CHECK_DEADLOCK FALSE
