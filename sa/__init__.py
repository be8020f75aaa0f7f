"""Repository-specific static analyser for modepy."""
