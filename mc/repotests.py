"""Runs the repository's own unittest modules (Python 2) under py2rt. Not a
check: used to validate the loader and the fix commits. """
import sys, os, unittest
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import py2rt
py2rt.install()
unittest.TestCase.assertAlmostEquals = unittest.TestCase.assertAlmostEqual
unittest.TestCase.assertEquals = unittest.TestCase.assertEqual
unittest.TestCase.assertItemsEqual = unittest.TestCase.assertCountEqual
import importlib
s = unittest.TestSuite()
for m in (sys.argv[1:] or "spectra scale shift smear minimise store test_statistic".split()):
    s.addTests(unittest.defaultTestLoader.loadTestsFromModule(importlib.import_module("echidna.test.test_" + m)))
unittest.TextTestRunner(verbosity=1).run(s)
