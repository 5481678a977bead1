#!/bin/sh
# Compiles the code under test with edge callbacks (LLVM's SanitizerCoverage pass); everything else
# as usual. Host artefacts (proc macros, build scripts) carry no --target and are left alone.
rustc="$1"
shift
name=""
target=0
prev=""
for a in "$@"; do
	[ "$prev" = "--crate-name" ] && name="$a"
	[ "$a" = "--target" ] && target=1
	prev="$a"
done
if [ $target = 1 ]; then
	case "$name" in
	ethabi | bridge | derivesim | bindings)
		exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
		;;
	esac
fi
exec "$rustc" "$@"
