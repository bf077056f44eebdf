"""setup_cmd: checks that everything the machinery needs is present (nothing is built)."""
import importlib, os, shutil, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for m in ("magic", "pypdf", "requests", "unidecode", "sim.main", "sim.pool", "sim.steps"):
    importlib.import_module(m)
assert shutil.which("pdftotext"), "pdftotext is missing"
assert sys.version_info >= (3, 12), "sys.monitoring is needed"
print("ready")
