# usage: mkrepldemo.sh ID PROP NEEDS BREAKS  < session ; lines typed into the REPL; expected output generated on clean tree
d=/verif/seeded/$1; mkdir -p $d; cat > $d/session.txt
python3 - "$@" <<'P'
import sys,json
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
cat > $d/demo.sh <<'S'
#!/bin/bash
# Types session.txt into the interpreter and compares what it prints and its exit code.
dir=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
HOME=$tmp timeout 60 /repo/target/debug/endbasic --local-drive=memory:// >"$tmp/out" 2>&1 <"$dir/session.txt"
echo "rc=$?" >>"$tmp/out"
diff -u "$dir/expected.txt" "$tmp/out"
S
tmp=$(mktemp -d); HOME=$tmp timeout 60 /repo/target/debug/endbasic --local-drive=memory:// >$d/expected.txt 2>&1 <$d/session.txt; echo "rc=$?" >>$d/expected.txt; cat $d/expected.txt
