"""pyvc: a small deductive verifier for the Python subset used by the code under /repo (see DESIGN.md)."""
