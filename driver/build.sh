#!/bin/bash
# builds the facts driver into $1
set -e
cd "$(dirname "$0")"
mkdir -p "$1"
rustc +nightly --edition 2021 -O -C prefer-dynamic -o "$1/hmath-facts.tmp.$$" src/main.rs
mv "$1/hmath-facts.tmp.$$" "$1/hmath-facts"
