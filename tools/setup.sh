#!/bin/bash
# Builds the harness once (checks rebuild it themselves when needed).
. "$(dirname "$0")/env.sh"
cd /verif/harness && cargo build --offline --quiet && cd /verif/wharness && cargo build --offline --quiet && java -version >/dev/null 2>&1
