#!/opt/venv/bin/python
"""Entry point of every check: run.py <property id> | run.py --replay <file>."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
from mc import engine  # noqa: E402

if __name__ == '__main__':
  sys.exit(engine.main(sys.argv[1:]))
