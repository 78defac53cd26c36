#pragma once
// clang has no OpenMP run time here: the declarations the headers use
extern "C" { int omp_get_max_threads(); int omp_get_num_procs(); int omp_get_num_threads(); int omp_get_thread_num(); void omp_set_num_threads(int); double omp_get_wtime(); }
