# Sourced: build <part> makes what the checks need from /repo's current tree.
. ./env.sh
build() {
    case "$1" in
        vh) (cd harness && cargo build --offline --locked -q) ;;
        cli) CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
            cargo build -q --manifest-path /repo/Cargo.toml -p barc-cli --offline --locked \
                --no-default-features --features mmap,brotli --target-dir "$PWD/target-cli" ;;
        climin) CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
            cargo build -q --manifest-path /repo/Cargo.toml -p barc-cli --offline --locked \
                --no-default-features --target-dir "$PWD/target-cli-min" ;;
        clinet) (cd cli-net && cargo build --offline --locked -q --target-dir "$PWD/../target-cli-net") ;;
        net) (cd harness && cargo build --offline --locked -q --features net --target-dir "$PWD/../target-net") ;;
        min) (cd harness && cargo build --offline --locked -q --no-default-features --target-dir "$PWD/../target-min") ;;
    esac
}
