#!/bin/bash
# check.sh ID            decide one property (VERIF_TIER=quick|thorough, VERIF_SEED=N)
# check.sh replay FILE   re-execute one recorded violation
# check.sh build         build everything (the setup command)
# Exit status: 0 held, 1 violation, 2 the check could not be carried out.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER LD_PRELOAD
triple=x86_64-unknown-linux-gnu
mkdir -p "$here/target" "$here/evidence" "$here/replays"

# quiet LABEL COMMAND...: the output goes to a log, shown if the command fails.
quiet() {
	local log="$here/target/build-$1.log"
	shift
	"$@" >"$log" 2>&1 || { tail -40 "$log" >&2; return 2; }
}

# The simulator with the library compiled in, edge callbacks inserted.
build_main() {
	cd "$here/ethsim" && RUSTC_WRAPPER="$here/rustc-wrap.sh" quiet main cargo build --offline --release \
		--target $triple --target-dir "$here/target/main"
}
# The operating-system layer for child processes.
build_shim() {
	quiet shim gcc -O2 -shared -fPIC -Wall -o "$here/target/preload.so.new" "$here/shim/preload.c" &&
		mv "$here/target/preload.so.new" "$here/target/preload.so"
}
# The command-line tool, as shipped and with overflow checks.
build_cli() {
	cd "$here/clisim" && quiet cli cargo build --offline --release --target-dir "$here/target/cli" &&
		quiet cli2 cargo build --offline --profile checked --target-dir "$here/target/cli"
}
# The library and the real macro for direct compilations; the compiler's arguments go to a file.
build_extern() {
	cd "$here/extern" || return 2
	quiet extern cargo build --offline --target $triple --target-dir "$here/target/extern" || return 2
	cargo build --offline --target $triple --target-dir "$here/target/extern" --message-format=json 2>/dev/null |
		python3 -c '
import json, subprocess, sys
ext, deps = {}, set()
for l in sys.stdin:
    m = json.loads(l)
    if m.get("reason") != "compiler-artifact": continue
    n = m["target"]["name"].replace("-", "_")
    for f in m["filenames"]:
        if f.endswith((".rlib", ".so")): deps.add(f.rsplit("/", 1)[0])
        if n in ("ethabi", "ethabi_derive", "ethabi_contract") and f.endswith((".rlib", ".so")): ext[n] = f
assert len(ext) == 3, ext
sysroot = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
print(sysroot + "/bin/rustc")
for d in sorted(deps):
    print("-L"); print("dependency=" + d)
    if not d.endswith("/deps"): print("-L"); print("dependency=" + d + "/deps")
for n, f in sorted(ext.items()): print("--extern"); print(n + "=" + f)
' >"$here/target/extern/args.new" && mv "$here/target/extern/args.new" "$here/target/extern/args"
}
# The generator check; if the guarded hook does not build, without expansions inside the simulator.
build_gen() {
	cd "$here/gensim" || return 2
	RUSTC_WRAPPER="$here/rustc-wrap.sh" quiet gen cargo build --offline --release --target $triple --target-dir "$here/target/gen" 2>/dev/null && return 0
	RUSTC_WRAPPER="$here/rustc-wrap.sh" quiet gen2 cargo build --offline --release --target $triple --target-dir "$here/target/gen" --no-default-features
}
# The bindings, and the simulator that uses them. Bindings that do not compile although the library
# and the macro do are themselves a violation: status 3.
build_bind() {
	cd "$here/bindsim" || return 2
	RUSTC_WRAPPER="$here/rustc-wrap.sh" quiet bind cargo build --offline --release --target $triple --target-dir "$here/target/bind" 2>/dev/null && return 0
	if grep -q '^error: could not compile `bindings`' "$here/target/build-bind.log"; then return 3; fi
	# likewise bindings that lack what their users (the glue) refer to
	if python3 "$here/tools/glue_errors.py" "$here/target/build-bind.log"; then return 3; fi
	tail -40 "$here/target/build-bind.log" >&2
	return 2
}
sim="$here/target/main/$triple/release/ethsim"
gen="$here/target/gen/$triple/release/gensim"
bind="$here/target/bind/$triple/release/bindsim"

need() {
	case "$1" in
	C10) build_main && build_shim && build_cli ;;
	C11) build_shim && build_extern && build_gen ;;
	C12) build_bind ;;
	*) build_main ;;
	esac
	local r=$?
	cd "$here" || return 2
	if [ $r = 3 ]; then
		# building the same tree again fails the same way: the log is the replay
		python3 "$here/tools/compile_violation.py" "$here/target/build-bind.log"
		exit 1
	fi
	[ $r = 0 ] || { echo "check.sh: the build failed" >&2; return 2; }
}

runner() {
	case "$1" in
	C11) echo "$gen" ;;
	C12) echo "$bind" ;;
	*) echo "$sim" ;;
	esac
}

# Runs the simulator with a scratch directory of its own, removed afterwards.
run() {
	local r
	VERIF_SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/ethsim.XXXXXXXX")" || exit 2
	export VERIF_SCRATCH
	trap 'rm -rf -- "$VERIF_SCRATCH"' EXIT
	"$@"
	r=$?
	exit $r
}

id="${1:?usage: check.sh ID|build|replay FILE}"
case "$id" in
build)
	# what does not build here is reported by the checks that need it
	for b in main shim cli extern gen bind; do build_$b || echo "check.sh: build_$b failed" >&2; done
	exit 0
	;;
replay)
	f="${2:?replay FILE}"
	p="$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$f" | head -1)"
	need "$p" || exit $?
	grep -q '"kind": "compile"' "$f" && { echo "the bindings compile now: not reproduced"; exit 0; }
	run "$(runner "$p")" replay "$f"
	;;
esac
need "$id" || exit $?
run "$(runner "$id")" check --prop "$id" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}"
