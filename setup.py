"""setup_cmd: nothing is compiled; checks that both interpreters and the contracts load."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import contract
contract.load_all()
os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import xarray, numpy, cftime, netCDF4"], check=True)
print(len(contract.HARNESSES), "contracts loaded")
