#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--scenario NAME --case K --seed S]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cv import main
sys.exit(main.main(sys.argv[1:]))
