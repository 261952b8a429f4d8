"""gamon: runtime monitors for galgebra, judged against an independent reference model."""
