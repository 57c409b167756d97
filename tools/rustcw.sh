#!/bin/bash
# compiler wrapper of the harness build: when the order book crate is compiled, its
# macro-expanded source is written next to the build output (for vx-derive)
case " $* " in
*" --crate-name asset_agnostic_orderbook "*)
    o="$CARGO_TARGET_DIR/expanded.rs"
    mkdir -p "$CARGO_TARGET_DIR"
    rm -f "$o"
    RUSTC_BOOTSTRAP=1 timeout 120 "$@" -Zunpretty=expanded >"$o.new" 2>/dev/null && mv "$o.new" "$o" || rm -f "$o.new"
    ;;
esac
exec "$@"
