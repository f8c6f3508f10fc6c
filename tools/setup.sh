#!/bin/bash
# Builds the framework: symbolic executor, native alusus, bitcode of the core, support libraries.
cd "$(dirname "$0")" && exec python3 -c "
import vx
vx.build_symex(); vx.build_support(); vx.build_native(); vx.build_bc(['basic', 'core', 'front'])"
