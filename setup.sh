#!/bin/bash
# Builds everything the checks need, offline.
exec bash "$(dirname "${BASH_SOURCE[0]}")/build.sh" pbe front feat
