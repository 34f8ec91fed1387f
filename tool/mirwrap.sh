#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: run rustc as asked, then print the MIR of the workspace crates.
rustc="$1"; shift
"$rustc" "$@" || exit $?
crate=""; prev=""; istest=0
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate="$a"
  [ "$a" = "--test" ] && istest=1
  prev="$a"
done
[ -z "$VP_MIR_OUT" ] && exit 0
[ "$istest" = 1 ] && exit 0
case "$crate" in
 banyan|banyan_utils|banyan_cli|filter_tiny)
  n=(); sk=0
  for a in "$@"; do
    if [ $sk = 1 ]; then sk=0; continue; fi
    case "$a" in
      --emit=*|--error-format=*|--json=*|--diagnostic-width=*) continue;;
      --out-dir) sk=1; continue;;
    esac
    n+=("$a")
  done
  RUSTC_BOOTSTRAP=1 "$rustc" "${n[@]}" -Zunpretty=mir -Zmir-opt-level=0 -o "$VP_MIR_OUT/$crate.mir.tmp" -Awarnings 2>"$VP_MIR_OUT/$crate.err" \
    && mv "$VP_MIR_OUT/$crate.mir.tmp" "$VP_MIR_OUT/$crate.mir";;
esac
exit 0
