"""Bounded symbolic execution of the real python-fluent sources over z3."""
