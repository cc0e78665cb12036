"""Checks that everything the checks need is there: nothing has to be built."""
import glob, os, subprocess, sys

sys.dont_write_bytecode = True
import real, tlc

bad = 0
for f in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=tlc.SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or b"*** Errors" in p.stdout:
        print(f, p.stdout.decode()[-1000:])
        bad = 1
print(real.convert_all(["<math><mi>x</mi></math>"]))
sys.exit(bad)
