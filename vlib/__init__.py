"""Runtime-monitoring harness for tbplas (see DESIGN.md)."""
