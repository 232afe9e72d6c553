SPECIFICATION Spec
INVARIANTS SoundIsClean Noticed NoPhantom
CHECK_DEADLOCK FALSE
