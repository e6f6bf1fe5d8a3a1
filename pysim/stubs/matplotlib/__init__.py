"""Nothing is drawn."""
