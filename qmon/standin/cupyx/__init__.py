"""Stand-in for cupyx, see cupy."""
