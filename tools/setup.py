"""Build what the checks need (each check builds again if it is missing)"""
import sys
import vf
try:
    vf.build_harness()
    vf.build_cli()
except vf.ToolError as e:
    print(e)
    sys.exit(2)
