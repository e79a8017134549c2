property = "P35"
needs = "a script that names the parameter class of clamped beams"
breaks = "the parameter class of clamped beams is renamed in the header only; the shipped fibre network script no longer denotes a class"
edits = [("include/HyperHDG/local_solver/timoshenko_network.hxx", "struct TimoschenkoBeamParametersClamped", "struct TimoshenkoBeamParametersClamped")]
demo_sh = r'''#!/bin/bash
# the local solver a shipped script configures exists: configuration taken from the script, compiled against the headers
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
solver=$(python3 - "$repo/reproducibles_python/fiber_network_elastic.py" <<'X'
import ast, sys
for n in ast.walk(ast.parse(open(sys.argv[1]).read())):
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "local_solver":
        print(ast.literal_eval(n.value))
X
) || exit 3
printf '#include "lsolmini.hxx"\n#include <HyperHDG/local_solver/timoshenko_network.hxx>\ntypedef LocalSolver::%s S;\nint main() { return S::hyEdge_dim() == 1 ? 0 : 1; }\n' "$solver" > "$t/demo.cxx"
g++ -std=c++20 -w -I"$repo/include" -I"$here" -idirafter "$repo" "$t/demo.cxx" -o "$t/demo" -llapack || exit 1
"$t/demo"
'''
demo = '// uses lsolmini.hxx\n'
