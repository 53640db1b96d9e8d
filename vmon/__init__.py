"""Runtime monitors for python-sortedcontainers (see /verif/DESIGN.md)."""
