SPECIFICATION Spec
INVARIANTS Waveform Conserved EdgesBalance Asked
CHECK_DEADLOCK FALSE
