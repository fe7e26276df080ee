"""Deterministic simulation of ConfigSpace."""
