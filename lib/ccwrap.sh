#!/bin/bash
# The compiler that parcels is told to use (CC) while scenarios are replayed: gcc itself, with the same arguments, but a
# library is compiled only once per preprocessed source and arguments.  The cache lives as long as one run of a check.
out=; args=(); pre=()
while [ $# -gt 0 ]; do
  case "$1" in
    -o) out=$2; shift ;;
    *) args+=("$1"); case "$1" in -l*|-L*|-shared) ;; *) pre+=("$1") ;; esac ;;
  esac
  shift
done
[ -n "$VERIF_CCOPT" ] && args+=("$VERIF_CCOPT")
if [ -z "$out" ] || [ ! -d "$VERIF_CCACHE" ]; then exec gcc "${args[@]}" ${out:+-o "$out"}; fi
flags=(); for a in "${args[@]}"; do case "$a" in *.c|*.cpp|-I*) ;; *) flags+=("$a") ;; esac; done
key=$( { gcc -E -P "${pre[@]}" 2>/dev/null || exit 1; printf '%s\n' "${flags[@]}"; } | md5sum)
key=$VERIF_CCACHE/${key%% *}
{
  flock 9
  if [ ! -f "$key.so" ]; then
    gcc "${args[@]}" -o "$key.tmp.so" || { rm -f "$key.tmp.so"; exec gcc "${args[@]}" -o "$out"; }
    mv "$key.tmp.so" "$key.so"
  fi
} 9>"$key.lock"
exec cp "$key.so" "$out"
