#!/bin/bash
# lists the fix commits in /repo (to keep known_findings.jsonl in step)
git -C /repo log --reverse --format='%h %s' | grep ' fix:'
