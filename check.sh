#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
# what the std build needs comes first; without the other builds the check can still find violations
./build.sh std || exit 2
case $1 in
  P22)
    log=$(mktemp)
    if ! ./build.sh nostd bare >"$log" 2>&1; then
      cat "$log" >&2
      if grep -q 'could not compile `substrate_parser`' "$log"; then
        # the library itself does not compile in one of its configurations
        mkdir -p replays && cp "$log" replays/P22-build.txt
        rm -f "$log"
        echo "VIOLATION property=P22 replay=$PWD/replays/P22-build.txt"
        echo "the library builds with std for 64 bits, but not in the other configurations"
        exit 1
      fi
      rm -f "$log"
      exit 2
    fi
    rm -f "$log" ;;
  P03 | P13 | P14 | P16 | P17) ./build.sh bare || export MC_NOBARE=1 ;;
esac
exec ./mc/target/release/mc check "$1" "$2"
