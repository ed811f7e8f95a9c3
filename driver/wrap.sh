#!/bin/bash
# RUSTC_WRAPPER: $1=rustc
case " $* " in
*"--crate-name protobuf "*|*"--crate-name osmpbfreader "*) exec "$@" -Zcrate-attr='feature(custom_inner_attributes)' --cap-lints allow;;
*) exec "$@";;
esac
