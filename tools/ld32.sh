#!/bin/sh
# linker for i686: there is no 32-bit C toolchain here, but the 32-bit C library itself is
exec ld -m elf_i386 -dynamic-linker /lib/ld-linux.so.2 -L"$VF_LIB32" "$@" --no-as-needed /lib/ld-linux.so.2
