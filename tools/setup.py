#!/usr/bin/env python3
"""Checks that the tools are there and that TLC parses the specification."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import engine  # noqa: E402

inv = [engine.case("P 1+2*3")]
obs = engine.observe(inv)
print(obs)
if not isinstance(obs, str):
    print(engine.validate(inv, obs))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
