"""Rules, one function per property: rule(ctx, report)."""
