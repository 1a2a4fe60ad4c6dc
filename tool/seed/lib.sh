# Sourced by demo.sh: builds the program of the repository in the current directory in a scratch folder.
H="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="$(pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
CXXF="-std=c++17 -O1 -w -DEIGEN_INITIALIZE_MATRICES_BY_ZERO -I$H/shim -I$R -I$W/gen -I/usr/include/eigen3 ${EXTRA:-}"
ABSL="-Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a | grep -v -e test -e random | tr '\n' ' ') -Wl,--end-group"

# build [other source files]: compiles the library, the program ($W/stl2ps) and each given file
build() {
  mkdir -p "$W/gen/stl-to-ps" "$W/o"
  bison --defines="$W/gen/stl-to-ps/parser.tab.h" -o "$W/gen/stl-to-ps/parser.tab.cc" "$R/stl-to-ps/parser.y" 2> /dev/null || exit 9
  flex --header-file="$W/gen/stl-to-ps/lexer.yy.h" -o "$W/gen/stl-to-ps/lexer.yy.cc" "$R/stl-to-ps/lexer.l" || exit 9
  local pids=() f
  for f in ast center geo ps stl stl-to-ps stl-to-ps-main parser; do
    g++ $CXXF -c "$R/stl-to-ps/$f.cc" -o "$W/o/$f.o" & pids+=($!)
  done
  for f in parser.tab lexer.yy; do
    g++ $CXXF -c "$W/gen/stl-to-ps/$f.cc" -o "$W/o/$f.o" & pids+=($!)
  done
  for f in "$@"; do
    g++ $CXXF -c "$f" -o "$W/o/$(basename "$f" .cc).o" & pids+=($!)
  done
  for f in "${pids[@]}"; do wait "$f" || { echo "does not compile"; exit 9; }; done
  LIB="$W/o/ast.o $W/o/center.o $W/o/geo.o $W/o/ps.o $W/o/stl.o $W/o/stl-to-ps.o $W/o/parser.o $W/o/parser.tab.o $W/o/lexer.yy.o"
  g++ "$W/o/stl-to-ps-main.o" $LIB $ABSL ${EXTRA:-} -lpthread -o "$W/stl2ps" || exit 9
  for f in "$@"; do
    g++ "$W/o/$(basename "$f" .cc).o" $LIB $ABSL ${EXTRA:-} -lpthread -o "$W/$(basename "$f" .cc)" || exit 9
  done
}

# run SCRIPT OUT [flags]: the exit status of the program, its diagnostics in $W/err
run() {
  local s="$1" o="$2"
  shift 2
  (cd "$W" && timeout 60 ./stl2ps "--script=$s" "--output=$o" "$@") 2> "$W/err" > "$W/out.txt"
}

# box FILE SX SY SZ [X Y Z]: a box as an STL file
box() {
  python3 - "$@" << 'EOF'
import sys
f, d = sys.argv[1], [float(x) for x in sys.argv[2:]]
o = d[3:6] if len(d) > 3 else [0, 0, 0]
fs = []
for ax in range(3):
    u, v = (ax + 1) % 3, (ax + 2) % 3
    for s in (0, 1):
        n = [0, 0, 0]
        n[ax] = 1 if s else -1
        q = []
        for a, b in ((0, 0), (1, 0), (1, 1), (0, 1)):
            p = [0, 0, 0]
            p[ax], p[u], p[v] = s, a, b
            q.append([o[i] + p[i] * d[i] for i in range(3)])
        if not s:
            q.reverse()
        fs.append((n, q[0], q[1], q[2]))
        fs.append((n, q[0], q[2], q[3]))
with open(f, "w") as h:
    h.write("solid box\n")
    for n, a, b, c in fs:
        h.write("  facet normal %g %g %g\n    outer loop\n" % tuple(n))
        for p in (a, b, c):
            h.write("      vertex %g %g %g\n" % tuple(p))
        h.write("    endloop\n  endfacet\n")
    h.write("endsolid box\n")
EOF
}

fail() { echo "FAIL: $*"; exit 1; }
