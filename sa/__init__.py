"""Static analysis framework for cfdtools: abstract interpretation over the syntax tree (stdlib only)."""
