#!/bin/bash
exec timeout 250 env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"
