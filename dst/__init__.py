"""Deterministic simulation of psygnal.  See /verif/DESIGN.md."""
