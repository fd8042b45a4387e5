#!/bin/bash
# builds both halves of the framework, offline, from the committed files
cd "$(dirname "$0")" && bash build.sh sim && bash build.sh gen
