#!/bin/sh
# proves the mathematical facts that pyvc uses as axioms (about 30 s); they do not depend on /repo
cd "$(dirname "$0")/.." && exec lean lemmas/Lemmas.lean
