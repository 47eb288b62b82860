#!/bin/sh
# rustc wrapper of the "work" and "sched" configurations: the library (and its decoder tables) get a call at every
# basic block, in "sched" also at every load and store.
rustc=$1
shift
case " $* " in
*" --crate-name email_parser "* | *" --crate-name textcode "*)
    [ -z "$MC_SCHED" ] || set -- "$@" -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 ;;
*) exec "$rustc" "$@" ;;
esac
