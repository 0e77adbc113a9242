#!/bin/bash
# The nightly rustc, adjusted for this repository's pinned dependencies:
#  - it reports itself as a stable release, so that old build scripts (ahash 0.8.3) do not
#    switch on library features that no longer exist;
#  - redis 0.23.3 relies on the edition-2021 fallback of `!` to `()`, which this nightly no longer
#    does: three calls in a scratch copy of its source get the `()` written out.
R="${COERCE_LINT_RUSTC:?}"
case " $* " in
  *" -vV "*|*" --version "*|*" -V "*) "$R" "$@" | sed -E 's/-nightly//g'; exit "${PIPESTATUS[0]}" ;;
  *" --crate-name redis "*)
    args=()
    for a in "$@"; do
      case "$a" in
        */redis-0.23.3/src/lib.rs)
          src="${a%/src/lib.rs}"; dst="${COERCE_LINT_BUILD:?}/redis-src"
          if [ ! -f "$dst/src/lib.rs" ]; then
            mkdir -p "$dst" && cp -r "$src/." "$dst/" && chmod -R u+w "$dst"
            sed -i -e 's/^ *self\.load_cmd()\.query_async(con)/self.load_cmd().query_async::<_, ()>(con)/' \
                   -e 's/^ *self\.load_cmd()\.query(con)/self.load_cmd().query::<()>(con)/' "$dst/src/script.rs"
            sed -i -e 's/cmd("READONLY")\.query(/cmd("READONLY").query::<()>(/' "$dst/src/cluster.rs"
          fi
          args+=("$dst/src/lib.rs") ;;
        *) args+=("$a") ;;
      esac
    done
    exec "$R" "${args[@]}" ;;
  *) exec "$R" "$@" ;;
esac
