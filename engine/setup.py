#!/usr/bin/env python3-vt
"""Self-test of the tool chain: tools present, rewriter sound on random terms."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
subprocess.check_call(['cargo', '--version'], env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu'))
sys.exit(subprocess.call([sys.executable, os.path.join(here, 'selftest_terms.py')], timeout=900))
