#!/bin/bash
# mkbug.sh ID PROPERTY [kit]: takes the diff of the scratch tree /tmp/wt as planted bug ID (and resets the tree)
set -e
D=/verif/seeded/$1
mkdir -p "$D"
git -C /tmp/wt diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
git -C /tmp/wt checkout -q -- .
git -C /repo apply --check "$D/patch.diff"
case "$3" in
  kit) cp /verif/tools/demo-kit/{kit.js,Manager.sol,StateMachine.sol} "$D/" ;;
  off) node /verif/tools/demo-kit/build-off.js >/dev/null; cp /verif/tools/demo-kit/off.js "$D/" ;;
esac
printf '#!/bin/bash\nexec timeout 280 node "$(dirname "$0")/demo.js"\n' > "$D/demo.sh"
chmod +x "$D/demo.sh"
