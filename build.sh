#!/bin/bash
# Builds the simulator together with wruster and wruster_handlers as they are in /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -d "$HOME/.cargo" ] || export HOME=/root
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER="$here/dst/rustc-wrap.sh" VERIF_DIR="$here"
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
[ -n "$RUSTUP_TOOLCHAIN" ] || export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$here/dst" || exit 2
mkdir -p target
exec 9>target/.dst-lock; flock 9
# wrustatic and wrusdummy become libraries: a copy of their sources with an entry point to call main
for p in wrustatic wrusdummy; do
  d="progs/$p/src"; n="target/.prog-$p"
  rm -rf "$here/dst/target/.prog-$p"; mkdir -p "$n"
  cp -r /repo/$p/src/. "$n/" 2>/dev/null
  [ -f "$n/main.rs" ] || : > "$n/main.rs"
  printf '\n#[doc(hidden)]\npub fn dst_entry() -> bool { std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS }\n' >> "$n/main.rs"
  # keep the file times of what did not change
  if ! diff -rq "$n" "$d" >/dev/null 2>&1; then rm -rf "$here/dst/progs/$p/src"; mkdir -p "$d"; cp -r "$n/." "$d/"; fi
done
# what is built must be what is in the tree, whatever the file times say
now="$( (cd /repo && find wruster wruster_handlers wrustatic wrusdummy Cargo.toml -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum; sha256sum "$here/dst/rustc-wrap.sh") | sha256sum)"
if [ "$now" != "$(cat target/.dst-tree 2>/dev/null)" ]; then
  rm -f "$here/dst/target/.dst-tree"
  cargo clean --offline --release -p wruster -p wruster_handlers -p wrustatic_prog -p wrusdummy_prog >/dev/null 2>&1
fi
# if only the programs cannot be built, only C24 has no answer
out="$(cargo build --release --offline --features progs 2>&1)" || out="$(cargo build --release --offline 2>&1)" || { echo "$out" | tail -60 >&2; echo "the simulator does not build against this tree" >&2; exit 2; }
echo "$now" > target/.dst-tree
exit 0
