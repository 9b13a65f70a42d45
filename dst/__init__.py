"""Deterministic simulation of waymax with fault injection."""
