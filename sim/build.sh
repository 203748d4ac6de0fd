#!/bin/bash
# build.sh VARIANT...: builds the simulator around /repo's current working tree.
#   fast  clang -O2, preemption/crash points at every basic block
#   mem   additionally at every load and store
#   asan  address sanitizer + bounds
# Output: /verif/build/sim-VARIANT. Nothing is written to /repo.
set -e
HERE=$(cd "$(dirname "$0")" && pwd); ROOT=$(dirname "$HERE"); REPO=${SIM_REPO:-/repo}; OUT=${SIM_OUT:-$ROOT/build}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C; unset CFLAGS CPPFLAGS LDFLAGS MAKEFLAGS CPATH
CC=clang; CXX=clang++; mkdir -p "$OUT"
J=8
libsrcs(){ ls "$1"/dilithium2/*.c "$1"/sphincs/*.c "$1"/common/*.c "$1"/tweetnacl/*.c "$1"/hybrid-dilithium-sphincs/*.c "$1"/random/*.c $(ls "$1"/lax/*.c 2>/dev/null) | grep -v -e '_test\.c$' -e '/test_'; }
key(){ cat "$@" 2>/dev/null | sha256sum | cut -c1-16; }
compile(){ # dir flags... < list of sources ; parallel
  local d=$1; shift; mkdir -p "$d"; local pids=() f rc=0
  xargs -P $J -I{} sh -c 'f="{}"; o="'"$d"'/$(echo "$f" | tr "/" "_").o"; '"$CC -w $* "'-c "$f" -o "$o"' || return 1; }
SHIMS="memcpy memmove memset __memcpy_chk:memcpy __memmove_chk:memmove __memset_chk:memset malloc calloc realloc reallocarray strdup __strdup:strdup free aligned_alloc posix_memalign exit _exit:exit abort getrandom getentropy syscall arc4random arc4random_buf open open64:open openat read __read_chk:read close ioctl poll __poll_chk:poll ppoll select pread pread64:pread fopen fopen64:fopen fclose time clock clock_gettime gettimeofday rand srand random getpid usleep sleep nanosleep sched_yield pthread_mutex_lock:mutex_lock pthread_mutex_trylock:mutex_trylock pthread_mutex_unlock:mutex_unlock pthread_mutex_init:zero pthread_mutex_destroy:zero pthread_rwlock_rdlock:rdlock pthread_rwlock_wrlock:wrlock pthread_rwlock_unlock:rwunlock pthread_once:once mtx_lock:mutex_lock mtx_unlock:mutex_unlock mtx_init:zero call_once:once pthread_spin_lock:mutex_lock pthread_spin_unlock:mutex_unlock pthread_spin_init:zero __assert_fail:assert_fail"
symfile(){ for s in $SHIMS; do a=${s%%:*}; echo "$a sim_$a"; done; }
ALIAS=""; for s in $SHIMS; do a=${s%%:*}; b=${s##*:}; [ "$a" = "$b" ] || ALIAS="$ALIAS -Wl,--defsym=sim_$a=sim_$b"; done
SRCH=$(key "$HERE"/*.cc "$HERE"/*.h "$HERE"/build.sh "$HERE"/fake/*.h "$HERE"/fake/*/*.h)
# ---- frozen reference release (optimised, symbols prefixed ref_)
build_ref(){
  local k; k=$(key $(libsrcs "$ROOT/ref") "$ROOT"/ref/*/*.h "$HERE/build.sh"); [ -f "$OUT/ref-$k.o" ] && { ln -sf "ref-$k.o" "$OUT/ref.o"; return; }
  local d; d=$(mktemp -d "$OUT/refXXXXXX"); libsrcs "$ROOT/ref" | grep -v '/random/' | compile "$d" -O2 -DNDEBUG || { rm -rf "$d"; return 1; }
  ld -r -o "$d/all.o" "$d"/*.c.o; nm -g --defined-only "$d/all.o" | awk '{print $3" ref_"$3}' > "$d/syms"; echo "randombytes ref_randombytes" >> "$d/syms"
  objcopy --redefine-syms="$d/syms" "$d/all.o" "$OUT/ref-$k.o"; ln -sf "ref-$k.o" "$OUT/ref.o"; rm -rf "$d"; }
# ---- library under test
build_lib(){ # variant
  local v=$1 fl; case $v in
    fast) fl="-O2 -DNDEBUG -fstack-protector-all -fsanitize-coverage=trace-pc-guard";;
    mem)  fl="-O1 -DNDEBUG -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores";;
    asan) fl="-O1 -g1 -DNDEBUG -fsanitize=address,bounds -fsanitize-trap=bounds -fno-sanitize-address-use-after-scope -fsanitize-coverage=trace-pc-guard";;
  esac
  local d="$OUT/obj-$v.$$"; rm -rf "$d"; mkdir -p "$d"; libsrcs "$REPO" | compile "$d/l" $fl || { echo "library does not compile" >&2; rm -rf "$d"; return 1; }
  # the WebAssembly binding, compiled natively at -O0 as the documented emcc command does
  if [ -f "$REPO/wasm/hybrid-pqc.c" ]; then echo "$REPO/wasm/hybrid-pqc.c" | compile "$d/l" -O0 -DNDEBUG -include stdint.h -I"$HERE/fake" || { echo "wasm binding does not compile" >&2; rm -rf "$d"; return 1; }; fi
  ld -r -o "$d/all.o" "$d"/l/*.o; symfile > "$d/shims"
  objcopy --redefine-syms="$d/shims" --rename-section .data=libdata,alloc,load,data,contents --rename-section .bss=libbss,alloc "$d/all.o" "$d/lib.o"
  $CC -w -O1 -I"$REPO/common" -c "$HERE/hash_adapt.c" -o "$d/ha.o" || { echo "hash interface does not compile" >&2; rm -rf "$d"; return 1; }
  # other platform configurations of the entropy source
  local RB="$REPO/random/randombytes.c"
  local c inc RBX=""; for c in sys old win em bsd wasi; do case $c in sys) inc="-include $HERE/fake/cfg_syscall.h";; old) inc="-include $HERE/fake/cfg_legacy.h";; win) inc="-include $HERE/fake/cfg_win.h -I$HERE/fake/win";; *) inc="-include $HERE/fake/cfg_$c.h -I$HERE/fake";; esac
    # a configuration that does not compile here is left out (weak symbol), never a reason to fail
    if $CC -w $fl $inc -c "$RB" -o "$d/rb$c.o" 2>"$d/rb$c.err"; then { symfile; echo "randombytes rb${c}_randombytes"; } > "$d/s"; objcopy --redefine-syms="$d/s" "$d/rb$c.o" "$d/rbx$c.o"; RBX="$RBX $d/rbx$c.o"; else echo "note: entropy source configuration $c not built: $(head -1 "$d/rb$c.err")" >&2; fi; done
  ALTOBJ=""; if [ $v = fast ]; then # the same tree built another way: other optimisation, every automatic variable pre-filled
    { libsrcs "$REPO"; } | compile "$d/a" -O1 -DNDEBUG -ftrivial-auto-var-init=pattern -fsanitize-coverage=trace-pc-guard || return 1
    [ -f "$REPO/wasm/hybrid-pqc.c" ] && { echo "$REPO/wasm/hybrid-pqc.c" | compile "$d/a" -O2 -DNDEBUG -ftrivial-auto-var-init=pattern -include stdint.h -I"$HERE/fake" || return 1; }
    ld -r -o "$d/alt0.o" "$d"/a/*.o; { cat "$d/shims"; nm -g --defined-only "$d/alt0.o" | awk '{print $3" alt_"$3}'; } > "$d/as"; objcopy --redefine-syms="$d/as" "$d/alt0.o" "$d/alt.o"; ALTOBJ="$d/alt.o"; fi
  LIBOBJS="$d/ha.o $d/lib.o $ALTOBJ$RBX"; LIBDIR="$d"; }
# ---- constants that occur in this tree and not (or less often) in the reference release: hints for drawing inputs and lengths, nothing else
dictfiles(){ ls dilithium2/*.[ch] sphincs/*.[ch] common/*.[ch] tweetnacl/*.[ch] hybrid-dilithium-sphincs/*.[ch] random/*.[ch] wasm/*.c 2>/dev/null | grep -v -e '_test\.c$' -e '/test_'; }
lits(){ [ -f "$1" ] && grep -oE "0[xX][0-9a-fA-F]+|\b[0-9]+|'[ -~]'|\"[^\"]{1,16}\"" "$1" | sed -e "s/^'\(.\)'$/chr \1/"; true; }
build_dict(){ ( cd "$REPO"; for f in $(dictfiles); do cmp -s "$f" "$ROOT/ref/$f" || diff <(lits "$ROOT/ref/$f") <(lits "$f") | sed -n 's/^> //p'; done ) | awk '!(++n[$0]>2)' | head -48 > "$OUT/dict.txt"; }
build_harness(){ # variant -> HOBJS
  local v=$1 def=""; [ $v = asan ] && def="-DSIM_ASAN_BUILD"; local kind=plain; [ $v = asan ] && kind=asan
  local k; k=$(key "$HERE"/*.cc "$HERE"/*.h "$HERE/build.sh")
  local d="$OUT/h-$kind-$k"; if [ ! -f "$d/ok" ]; then rm -rf "$OUT"/h-$kind-*; mkdir -p "$d"; ls "$HERE"/*.cc | xargs -P $J -I{} sh -c 'f="{}"; '"$CXX"' -std=c++17 -w -O1 '"$def"' -c "$f" -o "'"$d"'/$(basename "$f").o"' || return 1; touch "$d/ok"; fi; HOBJS="$d/*.o"; }
( flock 9
build_ref; build_dict
for v in "$@"; do build_harness $v; build_lib $v; sl=""; [ $v = asan ] && sl="-fsanitize=address"; $CXX $sl -no-pie $HOBJS $LIBOBJS "$OUT/ref.o" -lpthread $ALIAS -Wl,--allow-multiple-definition -o "$OUT/sim-$v.tmp"; mv "$OUT/sim-$v.tmp" "$OUT/sim-$v"; rm -rf "$LIBDIR"; done
) 9>"$OUT/.lock"
