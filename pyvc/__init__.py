"""pyvc: a small deductive verifier for Python functions (see DESIGN.md)."""
