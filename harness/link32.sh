#!/bin/bash
# links 32 bit programs against the 32 bit C library in /usr/lib32 (there is no 32 bit compiler setup here)
set -e
here=$(dirname "$(readlink -f "$0")")
L=/usr/lib32
out=a.out; args=()
while [ $# -gt 0 ]; do
  case "$1" in
    -m32|-fuse-ld*|-nodefaultlibs|-no-pie|-pie|-static-pie|-B*) ;;
    -lutil|-lrt|-lpthread|-lm|-ldl|-lgcc|-lgcc_eh|-lgcc_s|-lc) ;;
    -o) out=$2; args+=(-o "$2"); shift;;
    -Wl,*) IFS=, read -ra p <<< "${1#-Wl,}"; args+=("${p[@]}");;
    *) args+=("$1");;
  esac
  shift
done
clang -m32 -c "$here/start32.s" -o "$out.start.o" || gcc -m32 -c "$here/start32.s" -o "$out.start.o"
exec ld -m elf_i386 -dynamic-linker $L/ld-linux.so.2 "$out.start.o" "${args[@]}" $L/libc.so.6 $L/libm.so.6 $L/libgcc_s.so.1 $L/ld-linux.so.2
