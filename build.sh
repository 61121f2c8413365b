#!/bin/bash
# build.sh PROPERTY [OUT] - builds the simulator for one property from /repo's working tree.
# The workload object (which contains the whole header-only library, compiled from
# /repo) is compiled with access instrumentation; the runtime and driver are not.
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH LC_ALL=C.UTF-8
unset CXXFLAGS CPPFLAGS LDFLAGS
V="$(cd "$(dirname "$0")" && pwd)"; R="${REPO:-/repo}"; P="$1"
B="${OUT:-$V/build/$P}"; mkdir -p "$B"
CXX=clang++-18
COMMON="-std=c++17 -stdlib=libc++ -fno-pie -g1 -fno-omit-frame-pointer"
# same language options as /opt/vp/build.sh uses for the project's own targets
LIBOPT="-include /opt/vp/support/scalar_prefix.h -I$R"
$CXX $COMMON -O2 -w -c "$V/sim/rt.cpp" -o "$B/rt.o" & p1=$!
$CXX $COMMON -O2 -w -c "$V/sim/driver.cpp" -o "$B/driver.o" & p2=$!
compile() {   # compile SOURCE OBJECT [FLAGS]; uninitialised locals get contents the simulator chooses (sim/garbage.py)
  local src="$1" obj="$2"; shift 2
  local cg="-fno-builtin-malloc -fno-assume-sane-operator-new -msse -msse2 -msse3 -mssse3 -msse4.1 -msse4.2 -mavx -mavx2 -w -O1 -fsanitize=thread"
  $CXX $COMMON $cg $LIBOPT -I"$V/sim" -I"$V/wl" ${EXTRA} "$@" -ftrivial-auto-var-init=pattern -Xclang -disable-llvm-passes -S -emit-llvm "$src" -o "$obj.ll"
  python3 "$V/sim/garbage.py" "$obj.ll" "$obj.g.ll"; rm -f "$obj.ll"
  $CXX -std=c++17 -fno-pie -g1 -fno-omit-frame-pointer $cg -c -x ir "$obj.g.ll" -o "$obj.tmp"; rm -f "$obj.g.ll"
  objcopy --redefine-sym malloc=sim_malloc --redefine-sym free=sim_free --redefine-sym calloc=sim_calloc --redefine-sym realloc=sim_realloc --redefine-sym aligned_alloc=sim_aligned_alloc --redefine-sym posix_memalign=sim_posix_memalign "$obj.tmp" "$obj"; rm -f "$obj.tmp"
}
rm -f "$B"/wl*.o; pids=""; objs="$B/wl.o"
if grep -q '"ops.h"' "$V/wl/$P.cpp"; then   # the operation catalogue is compiled in parts
  for k in 1 2 3 4 5 6; do compile "$V/wl/ops_part.cpp" "$B/wl_$k.o" -DOPS_PART=$k -DOPS_FILE="\"ops_$k.inc\"" & pids="$pids $!"; objs="$objs $B/wl_$k.o"; done
fi
compile "$V/sim/inst.cpp" "$B/wl_i.o" & pids="$pids $!"; objs="$objs $B/wl_i.o"
compile "$V/wl/$P.cpp" "$B/wl.o"
for p in $pids; do wait $p; done
wait $p1; wait $p2
W=""
for s in fopen fopen64 fwrite fread rename remove unlink time clock_gettime gettimeofday gmtime localtime open read close getentropy \
  pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_cond_wait pthread_cond_signal pthread_cond_broadcast \
  __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort _ZNSt3__111__call_onceERVmPvPFvS2_E; do W="$W -Wl,--wrap=$s"; done
$CXX -no-pie -rdynamic -nostdlib++ $W -Wl,-z,muldefs $objs "$B/rt.o" "$B/driver.o" -o "$B/sim" -l:libc++.a -l:libc++abi.a -lpthread -ldl -lm
