# Environment of every build: offline, and nothing of the caller's that would change the result.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL
export VSIM_KNOWN=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)/known_findings.json
