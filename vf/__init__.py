"""Runtime-monitoring harness for XS-MLVP/toffee (see ../DESIGN.md)."""
