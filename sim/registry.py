"""All checks."""
from . import c_edit, c_grid, c_mpi, c_pipe, c_thread, c_tools

CHECKS = {c.ID: c for c in (c_mpi.C01, c_mpi.C02, c_mpi.C03,
                            c_tools.C04, c_tools.C05, c_tools.C06, c_tools.C07, c_tools.C08, c_pipe.C09, c_pipe.C10,
                            c_grid.C11, c_grid.C12, c_grid.C13, c_thread.C14, c_edit.C15, c_tools.C16)}
