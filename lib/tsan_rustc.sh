#!/bin/bash
# RUSTC_WRAPPER of C04: instruments the libraries built for the target, the scheduler itself aside. (Cargo gives no
# --target to build scripts, proc macros and what they depend on.)
rustc=$1
shift
case " $* " in
    *" --crate-name sched "*) exec "$rustc" "$@" ;;
    *" --crate-type lib "*" --target "*) exec "$rustc" "$@" -Zsanitizer=thread -Zshare-generics=no ;;
    *) exec "$rustc" "$@" ;;
esac
