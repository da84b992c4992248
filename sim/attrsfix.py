"""attrs 20.3 (the pinned version) cannot rewrite closure cells on Python 3.12,
so `super()` inside slotted attrs classes raises TypeError in this sandbox; the
Python the repository supports (3.8/3.9) has no such problem.  Import this
before `dp` to get the supported behaviour."""
import attr._make
import attr._compat


def set_closure_cell(cell, value):
    cell.cell_contents = value


attr._make.set_closure_cell = set_closure_cell
attr._compat.set_closure_cell = set_closure_cell
