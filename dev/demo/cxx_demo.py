"""Compiles a small program against the sources of the tree in the current directory and runs it; returns its exit status."""
import os
import subprocess
import tempfile


def run(src, sources=(), flags=()):
    with tempfile.TemporaryDirectory(prefix='cxx_demo_') as d:
        with open(os.path.join(d, 'a.cpp'), 'w') as f:
            f.write(src)
        subprocess.run(['g++', '-std=c++17', '-O0', '-w', '-Isrc/pyinterp/core/include', '-I/usr/include/eigen3', '-I/usr/include/python3.12',
                        *flags, '-o', d + '/a', d + '/a.cpp', *sources], check=True)
        return subprocess.run([d + '/a']).returncode
