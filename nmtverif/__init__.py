"""Static analyses deciding the semantic properties of NaMaster (see /verif/DESIGN.md)."""
