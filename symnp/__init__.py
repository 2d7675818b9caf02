"""Symbolic execution of numpy-style Python code by operator overloading over z3 terms."""
