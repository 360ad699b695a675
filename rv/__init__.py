"""Runtime-verification harness for riptide (see DESIGN.md)."""
