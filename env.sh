export PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export LIBTORCH=/opt/vp/pytorch/torch LIBTORCH_CXX11_ABI=0
export LD_LIBRARY_PATH="$LIBTORCH/lib"
export CARGO_TARGET_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/target"
