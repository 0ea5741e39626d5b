"""setup_cmd: builds the extractor and the driver-independent caches."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hv import facts
facts.tool()
facts.gen_dir()
print("ready")
