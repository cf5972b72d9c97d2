#!/bin/bash
# regenerate derived files and commit
cd /verif && python3 tools/make_props.py && python3 tools/make_notes.py && python3 tools/make_findings.py && python3 tools/make_manifest.py && python3 tools/make_catches.py && git add -A && git commit -qm "$1" && git status --short | head -3
