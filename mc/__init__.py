"""Bounded exhaustive exploration ("model checking") of scikit-signal/tftb."""
