"""setup: checks that the tools are there; every check builds what it needs itself."""
import subprocess, sys
for t in (["clang", "--version"], ["clang++", "--version"], ["cmake", "--version"]):
    subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
print("ok")
