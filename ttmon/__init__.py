"""Runtime monitors for tt-sketch."""
