"""pyvc: a contract-based deductive verifier for the Python code of x7-geom (see /verif/DESIGN.md)."""
