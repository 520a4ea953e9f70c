#!/bin/bash
# seed_new.sh ID PKGDIR PROPERTY NEEDS BREAKS: makes seeded/ID from the diff in /tmp/seedwork (a copy of /repo) and stdin as the in-package demo test; then undoes the diff.
s=/verif/seeded/$1; mkdir -p "$s"
git -C /tmp/seedwork diff > "$s/patch.diff"
git -C /tmp/seedwork checkout -q -- .
cat > "$s/demo_test.go"
python3 - "$3" "$4" "$5" > "$s/meta.json" <<'P'
import json,sys
json.dump({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},sys.stdout,indent=1)
P
cat > "$s/demo.sh" <<P
#!/bin/bash
# Runs demo_test.go inside package $2 (cwd: the repository).
d=\$(cd "\$(dirname "\$0")" && pwd)
o=\$(mktemp)
echo "{\"Replace\": {\"\$PWD/$2/zz_demo_test.go\": \"\$d/demo_test.go\"}}" > "\$o"
go test -count=1 $6 -overlay "\$o" -run 'TestDemo' ./$2
r=\$?
unlink "\$o"
exit \$r
P
[ -s "$s/patch.diff" ] || echo "$1: empty patch"
P=1
