"""Bounded exhaustive model checking of atooms.postprocessing (see DESIGN.md)."""
