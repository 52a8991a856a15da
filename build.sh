#!/bin/bash
# Builds the simulator against /repo's current working tree.  Output: build/<key>/simcheck (path printed).
# Everything goes to /verif/build, which git ignores; /repo is only read.
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${SIM_REPO:-/repo}
CXX=${CXX:-clang++-18}
export LC_ALL=C
mkdir -p "$V/build" || exit 3
exec 8> "$V/build/.lock"; flock 8
key=$( (cd "$R" && find src include prec 3rdparty -type f \( -name '*.cpp' -o -name '*.h' -o -name '*.hpp' -o -name '*.c' -o -name '*.inl' \) -print0 | sort -z | xargs -0 sha1sum; cd "$V" && sha1sum build.sh sim/* props/*) | sha1sum | cut -c1-16)
B=$V/build/$key
if [ -x "$B/simcheck" ]; then echo "$B/simcheck"; exit 0; fi
# keep the two most recent builds
ls -dt "$V"/build/*/ 2>/dev/null | grep -v '/obj/$' | tail -n +3 | while read -r d; do case "$d" in "$V"/build/*) find "$d" -delete;; esac; done
mkdir -p "$B" || exit 3
INC="-I$R/include -I$R/3rdparty -I$R/prec"
[ -e /opt/vp/include ] && INC="$INC -I/opt/vp/include"
LIBF="-std=c++20 -g1 -O1 -fPIC -fno-omit-frame-pointer -Wno-everything -fsanitize=thread -ftrivial-auto-var-init=pattern -mllvm -tsan-instrument-func-entry-exit=1 -Ddlopen=sim_dlopen -Ddlsym=sim_dlsym -Ddlclose=sim_dlclose -Ddlerror=sim_dlerror"
HARF="-std=c++20 -g1 -O1 -fPIC -Wno-everything"
jobs_file=$B/jobs
: > "$jobs_file"
# Objects are kept between builds under a hash of everything that goes into them.
mkdir -p "$V/build/obj"
find "$V/build/obj" -name '*.o' -mmin +720 -delete 2>/dev/null
hk=$( (cd "$R" && find include prec 3rdparty -type f ! -name '*.pch' ! -name '*.o' -print0 | sort -z | xargs -0 sha1sum; cd "$V"; sha1sum build.sh sim/*.h props/*.h; $CXX --version) | sha1sum | cut -c1-16)
job()
{
   local h; h=$V/build/obj/$( (echo "$hk $1"; sha1sum < "$2") | sha1sum | cut -c1-24).o
   if [ -e "$h" ]; then ln -f "$h" "$3"; else echo "$1 -c $2 -o $3.tmp && mv $3.tmp $3 && ln -f $3 $h" >> "$jobs_file"; fi
}
for f in "$R"/src/core/*.cpp; do job "$CXX $LIBF $INC" "$f" "$B/lib_$(basename "$f" .cpp).o"; done
for f in "$V"/sim/*.cpp; do job "$CXX -std=c++20 -g1 -O2 -fPIC -Wno-everything -Wno-unused-function -fno-builtin-malloc -fno-delete-null-pointer-checks" "$f" "$B/sim_$(basename "$f" .cpp).o"; done
for f in "$V"/props/*.cpp; do job "$CXX $HARF $INC" "$f" "$B/prop_$(basename "$f" .cpp).o"; done
if ! xargs -P "$(nproc)" -I{} sh -c '{}' < "$jobs_file" > "$B/log" 2>&1; then
   tail -60 "$B/log" >&2; echo "build.sh: compilation failed" >&2; exit 3
fi
# Template code shared with the instrumented library (std::vector and so on) must not be merged with
# the simulator's own copies: the simulator would be preempted inside itself.
for part in sim prop; do
   ld -r --force-group-allocation -o "$B/${part}.part.o" "$B/${part}"_*.o || exit 3
   nm "$B/${part}.part.o" | awk '$2=="W" && $3 ~ /^(_ZNSt|_ZNKSt|_ZSt|_ZN9__gnu_cxx|_ZNK9__gnu_cxx)/ {print $3}' > "$B/$part.weak"
   objcopy --localize-symbols="$B/$part.weak" "$B/${part}.part.o" || exit 3
done
if ! $CXX -rdynamic -o "$B/simcheck.tmp" "$B"/lib_*.o "$B"/sim.part.o "$B"/prop.part.o -lz -pthread -ldl >> "$B/log" 2>&1; then
   tail -60 "$B/log" >&2; echo "build.sh: link failed" >&2; exit 3
fi
mv "$B/simcheck.tmp" "$B/simcheck"
find "$B" -name '*.o' -delete
echo "$B/simcheck"
