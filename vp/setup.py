"""Nothing is needed beforehand: checks compile what they need from /repo. This only verifies the tools."""
import shutil, sys, os
missing = [t for t in ("g++", "java", "python3") if not shutil.which(t)]
if missing or not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    print("missing tools", missing)
    sys.exit(1)
print("ok")
