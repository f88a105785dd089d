mk () 
{ 
    d=/verif/seeded/$1;
    mkdir -p $d;
    git -C /repo diff > $d/patch.diff;
    git -C /repo checkout -- .;
    python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P

}
