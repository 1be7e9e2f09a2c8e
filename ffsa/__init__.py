"""Static analysis of the fastforward source tree (nothing under analysis is imported or run)."""
