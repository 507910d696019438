#!/bin/bash
# Run in a scratch copy of the harness: write the random fixtures and generate
# all fixtures' code with the generator given, then the monitors' registries.
# Usage: gen.sh <gotsrpc> <mkfix> <mkreg>; VERIF_FIX is the number of random
# fixtures. Exits 3 when the generator under test failed.
set -e
GOTSRPC=$1 MKFIX=$2 MKREG=$3
K=${VERIF_FIX:-2}
for i in $(seq 1 "$K"); do
  "$MKFIX" -seed $((${VERIF_SEED:-1} * 1000 + i)) -root . -name "rnd$i"
done
run() {
  if ! timeout 120 "$GOTSRPC" "$1" >gen.log 2>&1; then
    echo "the generator failed on $1:"
    tail -20 gen.log
    exit 3
  fi
}
run gotsrpc.yml
"$MKREG" -pkg verifharness/fx -dir ./fx -out ./fxreg/reg_gen.go -name fxreg \
  -http Service,UnionService,Peer,RPC,Clock,Ext,Shapes -tsclient Service,UnionService,Peer,RPC,Clock,Ext,Shapes -gorpc RPC \
  -consts ./fx=verifharness/fx,./fx/other=verifharness/fx/other
mkdir -p allreg
{
  echo "package allreg"
  echo "import ("
  echo '"reflect"'
  echo '"verifharness/rt"'
  echo '"verifharness/fxreg"'
  for i in $(seq 1 "$K"); do echo "\"verifharness/rnd${i}reg\""; done
  echo ")"
  echo "var Services []rt.Service"
  echo "var Consts = map[reflect.Type][]interface{}{}"
  echo "func add(s []rt.Service, c map[reflect.Type][]interface{}) { Services = append(Services, s...); for k, v := range c { Consts[k] = v } }"
  echo "func init() {"
  echo "add(fxreg.Services, fxreg.Consts)"
  for i in $(seq 1 "$K"); do echo "add(rnd${i}reg.Services, rnd${i}reg.Consts)"; done
  echo "}"
} >allreg/reg_gen.go
for i in $(seq 1 "$K"); do
  run "rnd$i.yml"
  R=rnd$i
  "$MKREG" -pkg verifharness/$R -dir ./$R -out ./${R}reg/reg_gen.go -name ${R}reg \
    -http RndA,RndB,RndRPC -tsclient RndA,RndB,RndRPC -gorpc RndRPC \
    -consts ./$R=verifharness/$R,./$R/alpha=verifharness/$R/alpha,./$R/b-pkg=verifharness/$R/b-pkg,./$R/x/vo=verifharness/$R/x/vo,./$R/y/vo=verifharness/$R/y/vo
done
