# usage: mkdemo.sh ID PROP NEEDS BREAKS  < prog.bas ; expected output generated on clean tree
d=/verif/seeded/$1; mkdir -p $d; cat > $d/prog.bas; printf "${INPUT:-}" > $d/in.txt
python3 - "$@" <<'P'
import sys,json
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
cat > $d/demo.sh <<'S'
#!/bin/bash
# Runs prog.bas with the interpreter and compares what it prints and its exit code.
dir=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
HOME=$tmp timeout 60 /repo/target/debug/endbasic "$dir/prog.bas" >"$tmp/out" 2>&1 <"$dir/in.txt"
echo "rc=$?" >>"$tmp/out"
diff -u "$dir/expected.txt" "$tmp/out"
S
tmp=$(mktemp -d); HOME=$tmp timeout 60 /repo/target/debug/endbasic $d/prog.bas >$d/expected.txt 2>&1 <$d/in.txt; echo "rc=$?" >>$d/expected.txt; cat $d/expected.txt
