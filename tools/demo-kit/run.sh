# sourced by demo.sh: run CRATE HOST [cargo flags]: the tests of demo.rs as a module of HOST; exit status of cargo test
kit="$(dirname "$(realpath "${BASH_SOURCE[0]}")")"
ws="$(mktemp -d "${TMPDIR:-/tmp}/cdn-demo.XXXXXX")"
trap 'rm -rf "$ws"' EXIT
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${CDN_DEMO_TARGET:-$ws/target}"
run() {
    local crate="$1" host="$2"; shift 2
    python3 "$kit/prep.py" "$kit" "$ws" "$crate" "$host" "$(dirname "$kit")/demo.rs" || return 3
    (cd "$ws" && mkdir -p tmp && TMPDIR="$ws/tmp" RUSTUP_TOOLCHAIN=stable \
        timeout 280 cargo test --offline -p "$crate" --lib "$@" -- vp_demo --test-threads 4)
}
