"""symx: a small symbolic-execution engine for (instrumented) Python source, with Z3."""
