#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]: decides one property. See DESIGN.md."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt, props


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    c = vt.Check(a.id, a.tier, a.seed)
    try:
        props.CHECKS[a.id](c)
        return c.finish()
    except vt.ToolError as e:
        if c.violations:
            # a verdict was reached before the tool trouble
            vt.log(f"note: {e}")
            return c.finish()
        vt.log(f"ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
