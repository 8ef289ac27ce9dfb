"""Late binding between engine and models."""
E = None
