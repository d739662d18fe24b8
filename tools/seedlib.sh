meta () 
{ 
    python3 - "$@" <<'E'
import sys,json
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
E

}
mkdemo () 
{ 
    cat > $1/demo.cpp;
    cat > $1/demo.sh <<'E'
#!/bin/bash
# cwd: repository root. exit 0 = property holds.
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -Iinclude "$here/demo.cpp" -o "$d/demo" -lpthread || exit 2
cd "$d" && timeout 60 ./demo
E

    chmod +x $1/demo.sh
}
