"""Symbolic execution of the real conmech source on exact symbolic reals, decided by z3."""
