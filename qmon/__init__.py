"""Runtime monitors for QuDiet: workloads, online monitors and oracles."""
