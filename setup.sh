#!/bin/bash
# builds the fact extractor and warms the dependency caches
here=$(cd "$(dirname "$0")" && pwd)
"$here/extract.sh" default && "$here/extract.sh" nodefault && "$here/extract.sh" nothreads
