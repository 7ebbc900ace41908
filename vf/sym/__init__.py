"""Deductive engines that execute the live functions of /repo on symbolic values."""
