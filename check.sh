#!/bin/bash
# check.sh <property> [quick|thorough] : builds the property's checker from /repo's working tree and runs it.
# Exit 0: held on everything explored. 1: VIOLATION line printed. 2: no answer (build failed, machine trouble).
# Every property but C25 is checked by two builds: one without sanitizers, which tries ten times as many cases, and one under them.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
case $ID in
C01|C02|C03) G=values;; C04|C05|C24) G=gamma;; C06) G=matrix;; C07|C08|C09|C10) G=conv;; C11|C22|C23) G=hist;;
C12|C13) G=calc;; C14|C15|C16) G=blend;; C17|C18) G=dist;; C19|C20) G=comb;; C21) G=adapt;; C25) G=hist;;
*) echo "unknown property $ID" >&2; exit 2;;
esac
REPO=${REPO:-/repo}
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=3:quarantine_size_mb=16 UBSAN_OPTIONS=print_stacktrace=1
export TSAN_OPTIONS=halt_on_error=1:exitcode=66:die_after_fork=0
SANS=address,undefined; PLAIN=none; [ "$ID" = C25 ] && SANS=thread PLAIN= # what several threads do at once is watched by the thread sanitizer
mkdir -p .build evidence replays
SUM=$( (cd "$REPO/ColorMagic" && find . -type f \( -name '*.cpp' -o -name '*.h' \) -print0 | sort -z | xargs -0 sha256sum; cd - >/dev/null; sha256sum src/* shim/include/* Makefile; echo "$REPO") | sha256sum | cut -c1-16)
OUT=.build/$SUM-$SANS; PLAINOUT=.build/$SUM-none
build() { # <out> <sanitizers> <target>...
	( flock 9
	local out=$1 sans=$2; shift 2
	mkdir -p "$out"; touch "$out"
	ls -1dt .build/*/ 2>/dev/null | tail -n +7 | while read -r d; do rm -rf "/$(readlink -f "$d" | cut -c2-)"; done
	make -s -j"$(nproc)" REPO="$REPO" OUT="$out" SANS="$sans" "${@/#/$out/}" >"$out/$1.log" 2>&1 || { tail -20 "$out/$1.log" >&2; exit 1; }
	) 9>.build/lock
}
W=$(mktemp -d /tmp/cmcheck.XXXXXX) || exit 2
trap 'case $W in /tmp/cmcheck.*) rm -rf "$W";; esac' EXIT
COMMON=(--seed "$SEED" --jobs "$(nproc)" --replays replays --known known_findings.txt)
TRY=(); EXTRA=()
add_extra() { EXTRA+=("$1"); local IFS=,; echo "${EXTRA[*]}" >"$W/extra.json"; }
plain() { # <tier> <seconds> <scale> : many cases without sanitizers
	build "$PLAINOUT" none "pbt_$G" || { echo "build failed" >&2; exit 2; }
	"$PLAINOUT/pbt_$G" "$ID" --tier "$1" --max-seconds "$2" --scale "$3" --salt 1 --evidence "evidence/$ID.json" "${COMMON[@]}" >"$W/plain.log"; local rc=$?
	if [ $rc != 0 ]; then cat "$W/plain.log"; exit $rc; fi
	add_extra "\"without_sanitizers\": $(sed -nE "s/^$ID: ([0-9]+) cases, ([0-9]+) distinct non-trivial, ([0-9]+) discarded.*/{\"evaluations\": \1, \"distinct_nontrivial\": \2, \"discarded\": \3}/p" "$W/plain.log" | tail -1)"
}
build "$OUT" "$SANS" "pbt_$G" || { echo "build failed" >&2; exit 2; }
touch "$W/extra.json"
if [ "$TIER" != thorough ]; then
	[ -n "$PLAIN" ] && plain quick "${PLAIN_SECONDS:-60}" 10
	"$OUT/pbt_$G" "$ID" --tier quick --max-seconds "${MAX_SECONDS:-240}" --evidence "evidence/$ID.json" --extra "$W/extra.json" "${COMMON[@]}" "${@:3}"
	exit $?
fi
# thorough: the same, longer, after a coverage-guided campaign over the same generators
if [ -z "$PLAIN" ]; then echo "no coverage-guided campaign: the thread sanitizer takes its place" >&2
elif build "$OUT" "$SANS" "fuzz_$G"; then
	T=${FUZZ_SECONDS:-90}
	mkdir "$W/corpus"
	( cd "$W" && PBT_ID=$ID timeout -k 5 $((T + 60)) "$OLDPWD/$OUT/fuzz_$G" corpus -fork="$(nproc)" -ignore_ooms=1 -ignore_timeouts=1 -detect_leaks=0 -rss_limit_mb=2500 -timeout=60 -max_len=1024 -len_control=0 -use_value_profile=1 -seed="$SEED" -max_total_time="$T" >log 2>&1 )
	for f in "$W"/crash-*; do [ -e "$f" ] && TRY+=(--try-bytes "$f"); done
	LAST=$(grep -aE '^#[0-9]+: cov:' "$W/log" | tail -1)
	EX=$(sed -E 's/^#([0-9]+):.*/\1/' <<<"$LAST"); COV=$(sed -E 's/.*cov: ([0-9]+).*/\1/' <<<"$LAST")
	add_extra "\"libfuzzer\": {\"seconds\": $T, \"executions\": ${EX:-0}, \"edges_covered\": ${COV:-0}, \"corpus\": $(ls "$W/corpus" | wc -l), \"crashes\": $(( ${#TRY[@]} / 2 ))}"
else echo "fuzz target did not build; random search only" >&2; fi
[ -n "$PLAIN" ] && plain thorough "${PLAIN_SECONDS:-270}" 10
S=600; [ -n "$PLAIN" ] && S=300
"$OUT/pbt_$G" "$ID" --tier thorough --max-seconds "${MAX_SECONDS:-$S}" --evidence "evidence/$ID.json" --extra "$W/extra.json" "${COMMON[@]}" "${TRY[@]}" "${@:3}"
exit $?
