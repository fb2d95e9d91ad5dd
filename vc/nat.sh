#!/bin/bash
# nat.sh UNIT SECS [contract...]: dev helper, native search of every contract of a unit
cd /verif; S=$2; U=$1; shift 2
python3-vt -c "
import sys; sys.path.insert(0,'vc'); import build,props
u=[u for p in props.PROPS.values() for u in p['units'] if u['src']=='$U'] or [{}]
build.compile_native('units/$U','/tmp/nat.run',u[0].get('flags',()),u[0].get('srcs',()),u[0].get('libs',()))" || exit 1
for c in ${@:-$(/tmp/nat.run list)}; do echo "$c: $(/tmp/nat.run search $c 1 $S /tmp/nat.out | tr '\n' ' ' | cut -c1-300)"; done
