"""Contract-based verification of Infleqtion/qLDPC: specifications, VC generation, provers, harness."""
