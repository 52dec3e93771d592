"""Symbolic execution of the real Python source of /repo (see DESIGN.md)."""
