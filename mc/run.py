#!/opt/horus-venv/bin/python
"""run.py ID [--tier quick|thorough]   run one property's check (see DESIGN.md)."""
import importlib, os, sys, threading, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def watch(chk, main_id, limit=780):
    """The check itself must answer: report what was found so far, or project code that does not return, before the time is up."""
    time.sleep(limit)
    fr = sys._current_frames().get(main_id)
    if not chk.viol and fr and os.path.abspath(fr.f_code.co_filename).startswith(os.path.join(vlib.REPO, "")):
        chk.violation("hang", "no end in sight in\n" + "".join(traceback.format_stack(fr)[-4:]))
    chk.cov["exhaustive"] = False
    if not chk.viol: print("out of time")
    rc = chk.finish() if chk.viol else 2
    sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)

def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    mod = importlib.import_module("checks." + pid.lower())
    chk = vlib.Check(pid, tier, mod.LEVEL, getattr(mod, "ASSUMPTIONS", ()))
    if tier == "quick": threading.Thread(target=watch, args=(chk, threading.main_thread().ident), daemon=True).start()
    try:
        mod.run(chk)
    except vlib.EarlyStop:
        rc = chk.finish() or 2
        sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
    except vlib.BuildError as e:
        print("BUILD ERROR\n" + str(e)); sys.exit(2)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        # an exception escaping from the project's own code where none may escape is a violation; ours is an error
        if tb and os.path.abspath(tb[-1].filename).startswith(os.path.join(vlib.REPO, "")):
            chk.violation(f"exception:{type(e).__name__}:{tb[-1].name}", "".join(traceback.format_exception(e))[-1500:])
        elif not chk.viol:
            sys.exit(2)
    sys.exit(chk.finish())

main()
