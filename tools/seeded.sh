#!/bin/bash
# seeded.sh [id...]: runs all checks against scratch copies of /repo with each planted bug applied and says which report it.
. /opt/vp/env.sh
cd /verif/analyzer && go build -o /tmp/d1static-seeded . || exit 1
cd /verif/seeded || exit 1
one() {
  id=$1; t=$(mktemp -d /tmp/seed-XXXX)
  mkdir -p "$t/repo" "$t/out" && git -C /repo archive HEAD | tar -x -C "$t/repo" && cp /verif/known-findings.txt "$t/out/"
  if (cd "$t/repo" && git apply "/verif/seeded/$id/patch.diff" 2>/dev/null || patch -s -p1 < "/verif/seeded/$id/patch.diff"); then
    prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "/verif/seeded/$id/meta.json")
    got=$(/tmp/d1static-seeded check -prop all -repo "$t/repo" -out "$t/out" 2>&1 | grep ^VIOLATION | sed 's/VIOLATION property=//; s/ .*//' | paste -sd' ')
    case " $got " in *" $prop "*) s=caught;; *) s=MISSED;; esac
    echo "$s $id property=$prop reported-by: $got"
  else echo "PATCH FAILS $id"; fi
  rm -rf "$t"
}
export -f one
[ $# -eq 0 ] && set -- *
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}' | sort
