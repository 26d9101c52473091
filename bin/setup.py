"""Nothing to build ahead of time; verify that the tools the checks use are present."""
import os, subprocess, sys
ok = True
for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(p):
        print("missing", p); ok = False
try:
    subprocess.run(["java", "-version"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
except Exception as e:
    print("java:", e); ok = False
try:
    import cffi, Crypto
except ImportError as e:
    print(e); ok = False
sys.exit(0 if ok else 1)
