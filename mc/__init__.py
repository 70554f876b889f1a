"""Bounded model checking of pcb-tools: explorer, reference models, property modules."""
