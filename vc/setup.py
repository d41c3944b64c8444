"""Check that the tools the verifier needs are present and that the repository builds."""
import subprocess, tempfile, shutil
from . import solver, build

for c in ([solver.Z3NEW, '--version'], [solver.Z3OLD, '--version'], [solver.CVC5, '--version'], [build.JAVA_HOME + '/bin/javac', '-version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
d = tempfile.mkdtemp(prefix='vc-setup-')
try: build.build(d)
finally: shutil.rmtree(d)
print('setup: ok')
