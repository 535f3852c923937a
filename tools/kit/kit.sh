# sourced by demo.sh: links the objects of the build into a Python module in
# a scratch directory ($T) that is removed at exit.  symdiff, which is an
# empty submodule, is replaced by engine.cc.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
S=/repo/src
B=/repo/_build/devsim/src
I="-I$D -I$S/Data -I$S/utility -I$S/common_api -I$S/math -I$S/AutoEquation -I$S/Geometry -I$S/GeomModels -I$S/models -I$S/Equation -I$S/MathEval -I$S/Circuit/data -I$S/meshing -I$S/errorSystem"
kit_build() {
  for f in EdgeExprModel EquationFunctions InterfaceModelExprEval InterfaceNodeExprModel ModelExprEval NodeExprModel TetrahedronEdgeExprModel TriangleEdgeExprModel; do
    echo $S/AutoEquation/$f.cc; done > $T/list
  echo $S/main/ResetAllData.cc >> $T/list
  echo $D/shim.cc >> $T/list
  echo $D/engine.cc >> $T/list
  xargs -P 8 -I{} sh -c 'g++ -O0 -w -fPIC -std=c++17 -DDEVSIM_EXTENDED_PRECISION '"$I"' -c {} -o '$T'/x_$(basename {}).o' < $T/list
  g++ -shared -o $T/devsim_py3.so $T/x_*.o $B/pythonapi/CMakeFiles/pythonapi_interpreter_py3.dir/*.o $B/AutoEquation/CMakeFiles/AutoEquation.dir/*.o \
    -Wl,--whole-archive $B/*/lib*.a $B/Circuit/*/lib*.a $B/Circuit/models/*/lib*.a -Wl,--no-whole-archive /repo/_build/getrf/libgetrf.a \
    -lgfortran -lquadmath -ldl -Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy
}
kit_run() { (cd $T && PYTHONPATH=$T timeout 120 python3 "$D/$1"); }
