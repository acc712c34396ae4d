# sourced by run.sh and setup.sh: builds the program that counts steps into $sdir
sdir=/verif/out/tick.$$
mkdir -p "$sdir"
build_tick() {
  export VERIF_TICK=$sdir/tick VERIF_TICK_NOTE=
  if go build -o "$sdir/instr" ./cmd/tickinstr; then
    # with the standard functions that go through texts, or else without
    for std in std ''; do
      if "$sdir/instr" /repo "$sdir" /verif/mc/vtick $std 2>"$sdir/log" &&
        go build -tags tick -overlay "$sdir/overlay.json" -o "$sdir/tick" ./cmd/tick 2>"$sdir/log"; then
        return 0
      fi
    done
  fi
  VERIF_TICK_NOTE="$(head -c 500 "$sdir/log" 2>/dev/null) "
  echo '{"Replace":{"/repo/vtick/vtick.go":"/verif/mc/vtick/vtick.go"}}' > "$sdir/overlay.json"
  go build -tags tick -overlay "$sdir/overlay.json" -o "$sdir/tick" ./cmd/tick
}
