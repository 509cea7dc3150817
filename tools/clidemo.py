"""prelude of the CLI demos"""
PRELUDE = '''import os, pathlib, shutil, subprocess, sys, tempfile
W = pathlib.Path(tempfile.mkdtemp(prefix="demo."))
def run(*args, inp=None, env=None):
    e = dict(os.environ); e["PYTHONPATH"] = os.getcwd(); e.update(env or {})
    return subprocess.run([sys.executable, "-m", "markflow", *map(str, args)], input=inp,
                          stdin=None if inp is not None else subprocess.DEVNULL, capture_output=True, text=True, env=e, cwd=W)
def put(name, text):
    p = W / name; p.parent.mkdir(parents=True, exist_ok=True); p.write_bytes(text.encode()); return p
def check(ok, msg=""):
    if not ok:
        print("FAILED", msg); shutil.rmtree(W); sys.exit(1)
UGLY, CLEAN = "a   b\\n", "a b\\n"
'''
POST = '''
shutil.rmtree(W)
'''
