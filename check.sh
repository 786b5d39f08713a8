#!/bin/bash
# check.sh ID [extra simulator flags]    decide property ID on /repo's working tree
# check.sh replay FILE                   re-execute a replay file
# check.sh build GROUP DIR               only build the simulator of GROUP into DIR
# Exit: 0 held on everything explored; 1 violated (VIOLATION line); 2 error of the check.
set -u
ROOT=$(cd "$(dirname "$(realpath "$0")")" && pwd)
REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
export CGO_CFLAGS="-O1 -w" GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local CGO_ENABLED=1
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}

group_of() {
    local l
    l=$(grep -E "^$1 " "$ROOT/groups.txt") || return 1
    echo "$l" | cut -d' ' -f2
}

# Packages that get a yield point before every statement.
FULL_frame=midi,framework/param,framework/state,framework/process,framework/voice
FULL_diag=framework/debug,dsp/debug,dsp/analysis
FULL_dsp=
FULL_iso=dsp/delay,dsp/distortion,dsp/dynamics,dsp/envelope,dsp/filter,dsp/modulation,dsp/oscillator,dsp/pan,dsp/reverb,dsp/utility,dsp,dsp/mix,dsp/gain,dsp/interpolation,framework/dsp
FULL_abi=plugin,vst3,midi,framework/param,framework/state,framework/process

build() { # GROUP DIR
    local g=$1 d=$2 full=FULL_$1 args=()
    mkdir -p "$d" || return 2
    (cd "$ROOT/instr" && go build -o "$d/instr" .) || return 2
    args=(-src "$REPO" -dst "$d/repo" -full "${!full}")
    [ "$g" != diag ] || args+=(-tags debug)
    [ "$g" != abi ] || args+=(-cgo -header "$ROOT/abi/vst3_c_api.h")
    "$d/instr" "${args[@]}" || return 2
    cp -a "$ROOT/rt" "$ROOT/sim" "$d/" || return 2
    cat >> "$d/sim/go.mod" <<E2

replace github.com/justyntemme/vst3go => ../repo

replace vstrt => ../rt
E2
    if [ "$g" = abi ]; then
        # The build cache does not see C files included from other directories:
        # make their content part of every file that uses them.
        local h; h=$(cat "$d"/repo/bridge/* "$d"/repo/include/vst3/* | sha256sum | cut -c1-16)
        grep -rlE '^import "C"' "$d/repo/pkg" "$d/sim/abi" --include=*.go | while read -r f; do printf '\n// C sources %s\n' "$h" >> "$f"; done
    fi
    local tags=()
    [ "$g" != diag ] || tags=(-tags debug)
    (cd "$d/sim" && go build "${tags[@]}" -o "$d/vsim" "./cmd/$g") || return 2
    if [ -e "$ROOT/sim/cmd/$g/race" ]; then
        # The wrapper passes handles (small integers) as pointers: no checkptr.
        local gc=(); [ "$g" != abi ] || gc=(-gcflags=all=-d=checkptr=0)
        (cd "$d/sim" && go build -race "${gc[@]}" "${tags[@]}" -o "$d/vsim-race" "./cmd/$g") || return 2
    fi
    return 0
}

case "${1:-}" in
build)
    build "$2" "$3"; exit $? ;;
setup)
    # Warms the build cache; the checks build whatever they need themselves.
    S=$(mktemp -d /tmp/vsim.XXXXXX) || exit 2
    trap 'rm -rf "$S"' EXIT
    for g in $(cut -d" " -f2 "$ROOT/groups.txt" | sort -u); do build "$g" "$S/$g" || exit 2; done
    exit 0 ;;
replay)
    FILE=$(realpath "$2")
    ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$FILE") || exit 2
    VARIANT=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["variant"])' "$FILE") || exit 2
    G=$(group_of "$ID") || { echo "unknown property $ID" >&2; exit 2; }
    S=$(mktemp -d /tmp/vsim.XXXXXX) || exit 2
    trap 'rm -rf "$S"' EXIT
    build "$G" "$S" || { echo "error: build failed" >&2; exit 2; }
    B="$S/vsim"; [ "$VARIANT" != race ] || B="$S/vsim-race"
    GORACE="halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0" "$B" replay -file "$FILE" -known "$ROOT/known_findings.json"
    exit $? ;;
"")
    sed -n 2,5p "$0"; exit 2 ;;
esac

ID=$1; shift
G=$(group_of "$ID") || { echo "unknown property $ID" >&2; exit 2; }
S=$(mktemp -d /tmp/vsim.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
build "$G" "$S" || { echo "error: build failed" >&2; exit 2; }
RACE=()
[ ! -e "$S/vsim-race" ] || RACE=(-racebin "$S/vsim-race")
MAXSEC=150; [ "$TIER" != thorough ] || MAXSEC=1800
"$S/vsim" run -check "$ID" -tier "$TIER" -seed "$SEED" -known "$ROOT/known_findings.json" \
    -replays "$ROOT/replays" -evidence "$ROOT/evidence" -sites "$S/repo/sites.json" -maxsec "$MAXSEC" "${RACE[@]}" "$@"
RC=$?
exit $RC
