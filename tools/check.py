"""Entry point of every check: check.py <PROP>.  Exit 0 held, 1 violated, 2 the machinery failed."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def auto_enum(ctx):
    import autoenum, families
    autoenum.check_families(ctx, families.families(ctx.prop, ctx.tier))


def main(prop):
    ctx = vlib.Ctx(prop)
    try:
        if prop in {"C%02d" % i for i in range(1, 10)}:
            auto_enum(ctx)
        elif prop in ("C10", "C11", "C12", "C16"):
            import deleg
            deleg.check(ctx)
        elif prop in ("C13", "C14", "C17", "C19"):
            import derive
            derive.check(ctx)
        elif prop == "C15":
            import transpose
            transpose.check(ctx)
        elif prop == "C18":
            import autoenum, families, typean
            typean.check(ctx)
            autoenum.check_families(ctx, families.families(prop, ctx.tier), features=("type_analysis",))
        elif prop == "C20":
            import hygiene
            hygiene.check(ctx)
        else:
            raise vlib.ToolError("no check for " + prop)
        return ctx.finish()
    except vlib.ToolError as e:
        print("TOOL ERROR: " + str(e)[:6000])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        import shutil
        shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
