"""Replay harnesses that run the whole library."""
from vcgen.api import falsifier

LIB = ['repo:grid/grid.cpp', 'repo:asagi.cpp', 'repo:io/netcdfreader.cpp', 'repo:types/structtype.cpp', 'repo:perf/counter.cpp']
MPI = LIB + ['repo:mpi/mpicomm.cpp', 'repo:mpi/commthread.cpp']
DIST = ['vnuma', 'vmpi', 'asan', '-g0', '-O0', '-DUSE_MPI3'] + MPI

falsifier('grid', ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C19', 'C23', 'C24', 'C26'], 'grid.cpp',
          ['vnuma', '-DASAGI_NOMPI', '-O0', '-g0', 'repo:asagi_f90.cpp'] + LIB, budget=25,
          rule='random grids, parameters, types and coordinates of one process with up to 4 NUMA domains and 3 threads; files in memory; every value, extent and counter compared with the file')
falsifier('dist', ['C04', 'C05', 'C06', 'C10', 'C11', 'C12', 'C15', 'C19', 'C21', 'C22', 'C23'], 'dist.cpp',
          DIST + ['-DTHREADSAFE_MPI'], budget=25,
          rule='random grids distributed over 2 to 4 simulated processes with up to 3 threads and 2 domains each, MPI windows, random schedules; every value compared with the file')
falsifier('dist-thread', ['C06', 'C10', 'C11', 'C15', 'C20', 'C23'], 'dist.cpp',
          DIST, budget=25,
          rule='the same with communication threads')
falsifier('dist-roundrobin', ['C04'], 'dist.cpp',
          DIST + ['-DTHREADSAFE_MPI', '-DROUND_ROBIN'], budget=25,
          rule='the same with the round robin distribution')
