#!/bin/bash
# Builds the harness once, which shows that everything it needs is there and
# fills the build cache where that is kept.
cd "$(dirname "$0")" && ./check legs
