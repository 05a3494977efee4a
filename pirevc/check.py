#!/usr/bin/env python3-vt
"""check.py <property>: runs the check of one property (module props/<id>.py)."""
import importlib.util, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework
pid = sys.argv[1]
sys.path.insert(0, os.path.join(framework.VERIF, "props"))
spec = importlib.util.spec_from_file_location(pid, os.path.join(framework.VERIF, "props", pid + ".py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
sys.exit(m.main())
