#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd sim && cargo build --locked -p owsim && cargo build --locked -p owfull
