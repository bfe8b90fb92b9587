"""Executes requests (one JSON line each) against the Python module and answers with one JSON line each."""
import importlib.machinery, importlib.util, json, sys

path = sys.argv[1]
spec = importlib.util.spec_from_file_location("pymbusparser", path, loader=importlib.machinery.ExtensionFileLoader("pymbusparser", path))
module = importlib.util.module_from_spec(spec)
spec.loader.exec_module(module)


def value(v):
    kind, x = next(iter(v.items()))
    if kind == "bytes":
        return bytes(x)
    if kind == "bytearray":
        return bytearray(x)
    if kind == "memoryview":
        return memoryview(bytes(x))
    if kind == "tuple":
        return tuple(x)
    return x


for line in sys.stdin:
    q = json.loads(line)
    try:
        args = [value(v) for v in q["args"]]
        kwargs = {k: value(v) for k, v in q["kwargs"].items()}
        r = {"ok": getattr(module, q["call"])(*args, **kwargs)}
        text = json.dumps(r, allow_nan=False)
    except Exception as e:
        r = {"err": type(e).__name__, "parser": isinstance(e, module.MbusParserError), "value_error": isinstance(e, ValueError), "msg": str(e)}
        text = json.dumps(r)
    except BaseException as e:
        text = json.dumps({"err": "PANIC " + type(e).__name__, "parser": False, "value_error": False, "msg": str(e)})
    sys.stdout.write(text + "\n")
    sys.stdout.flush()
