#!/usr/bin/env python3
"""Builds the executor, the native replay program and the harness bitcode."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import pipeline
pipeline.build_engine()
pipeline.build_native()
pipeline.build_bitcode()
