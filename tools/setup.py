"""Build all harnesses once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import importlib.machinery, importlib.util
loader = importlib.machinery.SourceFileLoader("check_mod", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "check"))
spec = importlib.util.spec_from_loader("check_mod", loader)
check = importlib.util.module_from_spec(spec)
loader.exec_module(check)
check.ensure_lock()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cli_engine, conc_engine
cli_engine.check = conc_engine.check = check
check.parallel([cli_engine.build_all, lambda: check.build_seq("full"), lambda: check.build_seq("bare"), check.build_a01, conc_engine.build_all])
print("ready")
