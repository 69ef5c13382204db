"""Deterministic simulation of abcvoting with fault injection (see /verif/DESIGN.md)."""
