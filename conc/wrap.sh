#!/bin/sh
# What threads can notice of one another goes through the scheduler.
rustc=$1; shift
name=; prev=
for a; do [ "$prev" = --crate-name ] && { name=$a; break; }; prev=$a; done
dir=$(dirname "$VSTD_RLIB")
case $name in
	fyi_msg) exec "$rustc" "$@" --extern std="$VSTD_RLIB" ;;
	signal_hook|terminal_size) exec "$rustc" "$@" --extern vstd="$VSTD_RLIB" ;;
	conc) exec "$rustc" "$@" --extern vstd="$VSTD_RLIB" -L dependency="$dir" ;;
	*) exec "$rustc" "$@" ;;
esac
