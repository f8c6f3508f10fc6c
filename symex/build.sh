#!/bin/bash
# builds the symbolic executor into $1
set -e
cd "$(dirname "$0")"
clang++-18 -std=c++17 -O2 -g1 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') -w symex.cpp -o "$1" $(llvm-config-18 --ldflags --libs) -lz3 -ldl -lpthread -rdynamic
