#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo. This only verifies the tools are there.
set -e
cargo --version; cargo kani --version; verus --version | head -2; python3 --version
