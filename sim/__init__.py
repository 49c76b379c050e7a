"""Deterministic simulator for crys-gsu."""
