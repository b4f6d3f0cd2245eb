#!/bin/bash
# run a Python program of the verifier
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH=/verif:/repo:/opt/venv/lib/python3.12/site-packages python3-vt "$@"
