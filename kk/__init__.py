"""Runtime monitors for kalmankit: workloads, oracles and verdicts."""
