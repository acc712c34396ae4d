# sourced by run.sh and setup.sh: builds the programs of the schedule check into $sdir
sdir=/verif/out/sched.$$
mkdir -p "$sdir"
build_sched() {
  export VERIF_SCHED= VERIF_SCHED_RACE= VERIF_SCHED_NOTE=
  local note
  if go build -o "$sdir/instr" ./cmd/instr && note=$("$sdir/instr" /repo "$sdir" /verif/mc/vsched/vsched.go 2>&1) &&
    go build -tags sched -overlay "$sdir/overlay.json" -o "$sdir/sched" ./cmd/sched 2>"$sdir/log"; then
    if [ -z "$note" ]; then VERIF_SCHED=$sdir/sched; else VERIF_SCHED_NOTE=$note; fi
  else # plain sources
    VERIF_SCHED_NOTE="$note $(head -c 500 "$sdir/log" 2>/dev/null)"
    echo '{"Replace":{"/repo/vsched/vsched.go":"/verif/mc/vsched/vsched.go"}}' > "$sdir/overlay.json"
    go build -tags sched -overlay "$sdir/overlay.json" -o "$sdir/sched" ./cmd/sched || return 1
  fi
  go build -race -tags sched -overlay "$sdir/overlay.json" -o "$sdir/race" ./cmd/sched && VERIF_SCHED_RACE=$sdir/race
  return 0
}
