#!/bin/bash
# seed_try.sh ID...: validates planted bugs in a scratch copy of /repo and runs their property's check against it.
for id in "$@"; do
	s=/verif/seeded/$id
	w=$(mktemp -d /tmp/seedtry.XXXXXX)
	cp -a /repo "$w/repo"; cp -a "$s" "$w/bug"; (cd "$w/bug" && unlink patch.diff; unlink meta.json)
	cd "$w/repo" || exit 2
	prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	bash "$w/bug/demo.sh" >"$w/d0" 2>&1; d0=$?
	git apply "$s/patch.diff" || echo "$id: PATCH DOES NOT APPLY"
	go build ./... || echo "$id: DOES NOT BUILD"
	bash "$w/bug/demo.sh" >"$w/d1" 2>&1; d1=$?
	(cd "$w/repo" && go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)" | grep -v "TestUDPBadConnID\|tests$\|FAIL$" | head -3)
	VERIF_REPO=$w/repo /verif/check.sh ${CHECK:-$prop} >"$w/c" 2>&1; c=$?
	echo "$id ($prop): demo clean=$d0 patched=$d1 check=$c $(grep -m1 -o 'VIOLATION.*' "$w/c" | cut -c1-60) $(grep -m1 -A1 FAIL "$w/c" | tail -1 | cut -c1-160)"
	[ $d0 = 0 ] || tail -5 "$w/d0"
	[ $d1 != 0 ] || echo "$id: DEMO DOES NOT FAIL"
	[ -n "$V" ] && { cat "$w/c"; tail -20 "$w/d1"; }
	cd /
	case "$w" in /tmp/seedtry.*) rm -rf "$w";; esac
done
