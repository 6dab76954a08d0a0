run_check() {
  case "$1" in
    warm)
      clock_overlay
      b unit unit; b gw gwmain; b gwcheck gwcheck; b storemain storemain
      b ids ids -overlay "$SCRATCH/ov/overlay.json"
      b gwv gwmain -tags vclock -overlay "$SCRATCH/ov/overlay.json"
      b gwr gwmain -race; b gwvr gwmain -race -tags vclock -overlay "$SCRATCH/ov/overlay.json"
      bp gosmc github.com/hrygo/gosms/msc_server/cmd; bp gosmcli github.com/hrygo/gosms/smc_client/cmd
      b clicheck clicheck; b cli climain; b clir climain -race
      b cliv climain -tags vclock -overlay "$SCRATCH/ov/overlay.json"
      b clivr climain -race -tags vclock -overlay "$SCRATCH/ov/overlay.json" ;;
    C01|C02|C03|C04|C05|C06|C07|C09|C27) b unit unit; "$SCRATCH/unit" "$1" ;;
    C08) clock_overlay; b ids ids -overlay "$SCRATCH/ov/overlay.json"; "$SCRATCH/ids" ;;
    C10|C12|C13|C14|C15|C16|C19|C30|C34) b gw gwmain; b gwcheck gwcheck; "$SCRATCH/gwcheck" "$1" ;;
    C11|C28) b gw gwmain; b gwcheck gwcheck; b storemain storemain; "$SCRATCH/gwcheck" "$1" ;;
    C31) bp gosmc github.com/hrygo/gosms/msc_server/cmd; b gwcheck gwcheck; "$SCRATCH/gwcheck" "$1" ;;
    C17|C18)
      clock_overlay; b gw gwmain; b gwcheck gwcheck
      b gwv gwmain -tags vclock -overlay "$SCRATCH/ov/overlay.json"
      "$SCRATCH/gwcheck" "$1" ;;
    C20)
      clock_overlay; b gwcheck gwcheck; b gwr gwmain -race
      b gwvr gwmain -race -tags vclock -overlay "$SCRATCH/ov/overlay.json"
      "$SCRATCH/gwcheck" "$1" ;;
    C21|C22|C23|C24|C33|C35) b clicheck clicheck; b cli climain; "$SCRATCH/clicheck" "$1" ;;
    C36|C37|C38) b gw gwmain; b clicheck clicheck; b cli climain; "$SCRATCH/clicheck" "$1" ;;
    C32) bp gosmcli github.com/hrygo/gosms/smc_client/cmd; b clicheck clicheck; "$SCRATCH/clicheck" "$1" ;;
    C25|C29)
      clock_overlay; b clicheck clicheck; b cli climain
      b cliv climain -tags vclock -overlay "$SCRATCH/ov/overlay.json"
      "$SCRATCH/clicheck" "$1" ;;
    C26)
      clock_overlay; b clicheck clicheck; b clir climain -race
      b clivr climain -race -tags vclock -overlay "$SCRATCH/ov/overlay.json"
      "$SCRATCH/clicheck" "$1" ;;
    *) echo "no check for $1"; return 3 ;;
  esac
}
