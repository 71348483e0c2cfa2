"""Runtime-monitoring harness for pyTMD (see DESIGN.md)."""
