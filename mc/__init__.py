"""Bounded-exhaustive model checking of soynlp: explorer runtime and one harness module per property."""
