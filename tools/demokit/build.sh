# usage: build.sh OUT demo.cc source.cc... : compiles the demonstration with sources of the repository (cwd)
set -e
OUT="$1"; shift
K="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
F="-std=c++17 -O1 -w -fpermissive $DEMO_FLAGS -I$K -I/usr/include/android -I. -I_build/gen"
objs=""
i=0
for s in "$@"; do
  i=$((i+1)); g++ $F -c "$s" -o "$W/$i.o" & objs="$objs $W/$i.o"
  if [ $((i % 8)) = 0 ]; then wait; fi
done
wait
for o in $objs; do [ -e "$o" ] || { echo "demo build failed"; exit 99; }; done
L=""
for l in /usr/lib/x86_64-linux-gnu/libabsl_*.a; do n=$(basename $l .a); L="$L -l${n#lib}"; done
g++ -o "$OUT" $objs $DEMO_LIBS -L_build -lprotos -lprotobuf -Wl,--start-group $L -Wl,--end-group -L/usr/lib/x86_64-linux-gnu/android -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -l:libcrypto.so.0 -lpthread
