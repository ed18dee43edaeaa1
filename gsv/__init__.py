"""Generated-input checks for graph-scheduler.  See ../DESIGN.md."""
