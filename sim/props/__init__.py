"""Deterministic simulation of portfolyo with fault injection (see ../DESIGN.md)."""
