#!/bin/bash
# Builds everything the checks need, from the committed files, offline.
exec bash "$(dirname "$0")/build.sh"
