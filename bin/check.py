#!/opt/venv/bin/python
"""check.py Cxx  --  decide one property of python-snmp for /repo's working tree."""
import os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
import common

FAMILY = {
    "C01": "fam_codec", "C02": "fam_codec", "C03": "fam_codec", "C04": "fam_codec",
    "C05": "fam_utils", "C06": "fam_utils",
    "C07": "fam_req", "C08": "fam_req", "C09": "fam_req", "C10": "fam_req", "C11": "fam_req", "C12": "fam_req",
    "C13": "fam_v3", "C14": "fam_v3", "C15": "fam_v3", "C16": "fam_v3", "C17": "fam_v3",
    "C18": "fam_usm", "C19": "fam_usm", "C20": "fam_usm", "C21": "fam_usm", "C22": "fam_usm",
    "C23": "fam_net", "C24": "fam_net", "C25": "fam_net", "C26": "fam_codec",
}

def main(prop):
    common.setup_repo_import()
    mod = __import__(FAMILY[prop])
    try:
        return mod.run(prop).finish()
    except common.TLCError:
        raise
    except BaseException as e:
        # An exception that the code under test let escape where the contract allows none.
        frames = traceback.extract_tb(e.__traceback__)
        if isinstance(e, common.ChildError) and e.in_repo or frames and any(f.filename.startswith(os.path.join(common.REPO, "snmp") + os.sep) for f in frames) \
                and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            traceback.print_exc()
            out = common.Outcome(prop, "exploration")
            out.coverage = dict(evaluations=0, distinct_nontrivial=0, rule="aborted", samples=[])
            out.violation(f"{prop}.unexpected-exception", f"{type(e).__name__}: {e}",
                          {"traceback": traceback.format_exc()})
            return out.finish()
        raise

if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc) if rc == 2 else sys.exit(rc)
