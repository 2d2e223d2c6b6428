mk () 
{ 
    mkdir -p seeded/$1;
    cat > seeded/$1/demo.sh <<'E'
#!/bin/bash
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/gyp/pylib" exec python3 "$(dirname "$0")/demo.py"
E

    python3 -c "import json,sys;json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)" "$1" "$2" "$3" "$4";
    git -C /repo diff > seeded/$1/patch.diff;
    git -C /repo checkout -q -- .;
    cat > seeded/$1/demo.py
}
