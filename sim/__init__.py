"""Deterministic simulation of spafe with fault injection. See /verif/DESIGN.md."""
