"""Property-based testing machinery for PerMaViss."""
