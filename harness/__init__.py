"""Property-based checking harness for harmonica (see DESIGN.md)."""
