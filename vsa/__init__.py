"""Value-flow static analyser for the PyAnEn sources (see /verif/DESIGN.md)."""
