#!/bin/bash
# Compiles demo.cc (beside this file) against the library built in /repo/_build and runs it.
here=$(cd "$(dirname "$0")" && pwd)
P=/opt/hpp-venv/lib/python3.12/site-packages/cmeel.prefix
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
DEFS="-DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_COLLISION -DPINOCCHIO_WITH_HPP_FCL -DPINOCCHIO_WITH_URDFDOM -DHPP_CONSTRAINTS_USE_QPOASES -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 -DOCTOMAP_PATCH_VERSION=0"
INC="-I/repo/include -I/repo/_build/include"
for d in include include/eigen3 include/pinocchio/deprecated include/urdfdom include/urdfdom_headers; do INC="$INC -isystem $P/$d"; done
LIBS=""
for l in hpp-pinocchio hpp-util pinocchio_parsers pinocchio_collision pinocchio_default coal boost_filesystem boost_serialization boost_thread urdfdom_model; do [ -e $P/lib/lib$l.so ] && LIBS="$LIBS $P/lib/lib$l.so"; done
/usr/bin/g++ -O0 -w -include map -fopenmp $DEFS $INC "$here/demo.cc" -o "$W/demo" /repo/_build/libhpp-constraints.so $LIBS \
  -Wl,-rpath,/repo/_build -Wl,-rpath,$P/lib -Wl,--allow-shlib-undefined || { echo "demo does not compile"; exit 3; }
LD_LIBRARY_PATH=$P/lib timeout 100 "$W/demo"
