#!/opt/venv/bin/python
"""usage: check.py <property id> [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    from symx import runner
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(runner.replay_file(sys.argv[1], sys.argv[3]))
    sys.exit(runner.run_property(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))))
