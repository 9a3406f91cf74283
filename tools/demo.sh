#!/bin/bash
# Builds and runs demo.cpp against the library in the current directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; M=$R/subpackages/mav_trajectory_generation
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w $DEMO_FLAGS -I"$D" -I"$R/include" -I"$R/include/dynamic_trajectory_generator" -I"$M/include" \
  -I"$M/include/mav_trajectory_generation" -I"$M/include/mav_msgs" -I/usr/include/eigen3 "$D/demo.cpp" \
  "$R/_build/libdynamic_trajectory_generator.a" "$R/_build/subpackages/mav_trajectory_generation/libmav_trajectory_generation.a" \
  -lnlopt -lglog -lyaml-cpp -lpthread -ldl -o "$W/demo" || exit 3
cd "$W" && timeout 120 ./demo
