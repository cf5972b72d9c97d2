# Jython worker: runs its share of the cases of one check
import imp, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core
core.worker_main(sys.argv[1:])
