"""Bounded model checking of openscm (see DESIGN.md)."""
