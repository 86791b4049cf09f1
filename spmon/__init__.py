"""Runtime-monitoring harness for SPFlow (see /verif/DESIGN.md)."""
