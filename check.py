#!/opt/venv/bin/python
"""check.py <property>  --  decides one property on /repo's working tree.
VERIF_SEED and VERIF_TIER (quick|thorough) are read from the environment."""
import os, sys
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import importlib, shutil, traceback
sys.setrecursionlimit(5000)

def main():
    pid = sys.argv[1]
    import lib
    chk = lib.Check(pid, 'model_checking')
    try:
        importlib.import_module(pid.lower()).run(chk)
    except lib.TLCError as e:
        print('ERROR of the check (TLC):', str(e)[:4000])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return chk.finish()

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
