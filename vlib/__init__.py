"""Generators, reference model and runner shared by the checks."""
