"""Runs the functions of logreduce_rust given as JSON lines on the standard input.

Numbers that are not integers are returned as their shortest decimal form."""
import json
import sys

sys.path.insert(0, sys.argv[1])
import logreduce_rust as lr

models = {}


def run(op):
    name = op[0]
    if name == "process":
        return lr.process(op[1])
    if name == "generate":
        return lr.generate(op[1])
    if name == "index":
        models[op[1]] = lr.index(op[2])
    elif name == "index_mat":
        models[op[1]] = lr.index_mat(op[2])
    elif name == "search":
        return repr(lr.search(models[op[1]], op[2]))
    elif name == "search_mat":
        return [repr(d) for d in lr.search_mat(models[op[1]], op[2])]
    elif name == "save":
        return bytes(lr.save_mat(models[op[1]])).hex()
    elif name == "load":
        models[op[2]] = lr.load_mat(bytes(lr.save_mat(models[op[1]])))
    elif name == "drop":
        models.pop(op[1], None)
    elif name == "reset":
        models.clear()
    return None


for line in sys.stdin:
    try:
        out = {"ok": run(json.loads(line))}
    except BaseException as e:
        out = {"err": "%s: %s" % (type(e).__name__, e)}
    sys.stdout.write(json.dumps(out) + "\n")
    sys.stdout.flush()
