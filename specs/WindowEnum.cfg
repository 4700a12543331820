SPECIFICATION Spec
VIEW View
INVARIANTS SoundDoc Untouched Shows
CHECK_DEADLOCK FALSE
