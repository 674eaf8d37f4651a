"""Runtime monitors, workloads and oracles for py_fatigue."""
