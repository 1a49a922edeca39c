"""Property-based verification framework for robuststats (see DESIGN.md)."""
