#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS: takes /repo's uncommitted changes as the planted change; demo from stdin
S=/verif/seeded/$1; mkdir -p $S
git -C /repo diff > $S/patch.diff
git -C /repo checkout -q -- .
python3 -c "import json,sys;json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$S/meta.json','w'),indent=1)" "$2" "$3" "$4"
cat > $S/demo.sh
