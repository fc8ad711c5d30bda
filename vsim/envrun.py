"""Stands alone: makes the calls it is given in the environment it was started in."""
import sys
sys.dont_write_bytecode = sys.dont_write_bytecode
import json
import os


def outcome(f):
    try:
        r = f()
        return ["ok", type(r).__name__, ascii(r)]
    except BaseException as e:
        return ["exc", type(e).__name__, ascii(str(e))]


def main(m):
    for p in m["pre"]:
        if p == "setlocale":
            import locale
            try:
                locale.setlocale(locale.LC_ALL, "")
            except locale.Error:
                pass
        elif p == "setlocale fr":
            import locale
            for n in ("fr_FR.UTF-8", "fr_FR.utf8", "C.utf8"):
                try:
                    locale.setlocale(locale.LC_ALL, n)
                    break
                except locale.Error:
                    pass
        elif p == "decimal":
            import decimal
            decimal.getcontext().prec = 2
            decimal.getcontext().rounding = decimal.ROUND_UP
        elif p == "random":
            import random
            random.seed(m["n"])
        elif p == "warnings":
            import warnings
            warnings.simplefilter("error")
        elif p == "gc off":
            import gc
            gc.disable()
        elif p == "gc often":
            import gc
            gc.set_threshold(1, 1, 1)
        elif p == "chdir gone":
            d = os.path.join(m["scratch"], "gone")
            os.mkdir(d)
            os.chdir(d)
            os.rmdir(d)
        elif p == "logging":
            import logging
            logging.basicConfig(level=0, handlers=[logging.NullHandler()])
        elif p == "umask":
            os.umask(0o777)
    sys.path.insert(0, os.fsdecode(bytes.fromhex(m["path"])))

    def calls():
        out = [outcome(lambda: [__import__("number_parser").__version__])]
        if out[0][0] != "ok":
            return out
        import number_parser
        not_text = {"None": None, "5": 5, "bytes": b"two", "list": ["two"]}
        for f, text, lang, style in m["ops"]:
            t = not_text[text["py"]] if isinstance(text, dict) else text
            fn = getattr(number_parser, f)
            out.append(outcome((lambda: fn(t, language=lang)) if style else (lambda: fn(t, lang))))
        return out

    def send(out):
        data = json.dumps(out).encode("ascii")
        while data:
            data = data[os.write(m["fd"], data):]

    host(m["host"], calls, send)


def host(how, calls, send):
    """where in the application the calls are made"""
    if how == "thread" or how == "small stack":
        import threading
        if how == "small stack":
            threading.stack_size(256 * 1024)
        box = []
        th = threading.Thread(target=lambda: box.append(calls()), daemon=True)
        th.start()
        th.join()
        send(box[0])
    elif how == "exit handler":
        import atexit
        atexit.register(lambda: send(calls()))
    elif how == "task":
        import asyncio

        async def task():
            await asyncio.sleep(0)
            return calls()
        send(asyncio.run(task()))
    elif how == "executor":
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            send(ex.submit(calls).result())
    elif how == "signal handler":
        import signal
        signal.signal(signal.SIGALRM, lambda s, f: send(calls()))
        os.kill(os.getpid(), signal.SIGALRM)
        for _ in range(10):
            pass
    elif how == "finalizer":
        class Obj:
            def __del__(self):
                send(calls())
        o = Obj()
        o.me = o
        del o
        import gc
        gc.collect()
    elif how == "forked":
        pid = os.fork()
        if not pid:
            try:
                send(calls())
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
    elif how == "handling":
        try:
            raise OSError(5, "the application's")
        except OSError:
            send(calls())
    elif how == "traced":
        sys.settrace(lambda f, e, a: None)
        sys.setprofile(lambda f, e, a: None)
        try:
            out = calls()
        finally:
            sys.settrace(None)
            sys.setprofile(None)
        send(out)
    elif how == "executed":          # as exec'ed text without a module of its own
        box = {"calls": calls}
        exec("out = calls()", box)
        send(box["out"])
    else:
        send(calls())


main(json.loads(open(int(sys.argv[1]), "rb").read().decode("utf-8")))
