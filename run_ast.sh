#!/bin/bash
# run_ast.sh HEUAST OUT.json ROOT.cpp
exec "$1" "$2" "$3" -std=c++17 -I/verif/frontend/ompinc -I${VERIF_REPO:-/repo} -I/usr/include/eigen3 -fopenmp -fno-access-control -Wno-c++11-narrowing
