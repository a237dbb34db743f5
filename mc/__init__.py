"""Bounded exhaustive exploration of the real micropolarray code against reference models."""
