"""Property C30: the Python package against plain Python values (hypothesis, one forked process per case).
   pyprop.py --seed N --time S --workers W --out FILE --failure FILE      search
   pyprop.py --replay FILE                                                one case; exit 1 if it fails"""
import sys, os, json, time, signal, select, pickle, socket, tempfile, shutil, gc, traceback, hashlib, warnings
import numpy as np
import trax
from trax import Server, Region, Image, TraxStatus, TraxException, Rectangle, Polygon, Special, Mask, MemoryImage, BufferImage, FileImage, URLImage, Properties
from trax.client import Client

class Failed(Exception): pass
def check(ok, what, *detail):
    if not ok: raise Failed(what + (": " + " ".join(repr(d)[:300] for d in detail) if detail else ""))

# ---------------------------------------------------------------- values described by plain data
LAYOUTS = ["c", "fortran", "step", "reversed", "transposed", "window", "readonly", "columns", "swapped"]
def content(spec):
    """the array that is meant, always contiguous"""
    rng = np.random.default_rng(spec["seed"]); d = np.dtype(spec["dtype"]).newbyteorder("=")
    if spec.get("mask"): return (rng.random(spec["shape"]) < 0.5).astype(np.uint8) * np.uint8(spec.get("on", 1))
    return rng.integers(0, np.iinfo(d).max, spec["shape"], dtype=d, endpoint=True)
def array(spec):
    """the same array in the requested memory layout"""
    a = content(spec); k = spec["layout"]
    if k == "fortran": r = np.asfortranarray(a)
    elif k == "step": b = np.full((2 * a.shape[0], 3 * a.shape[1]) + a.shape[2:], 7, a.dtype); b[::2, ::3] = a; r = b[::2, ::3]
    elif k == "reversed": r = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    elif k == "transposed": r = np.ascontiguousarray(np.swapaxes(a, 0, 1)).swapaxes(0, 1)
    elif k == "window": b = np.full((a.shape[0] + 3, a.shape[1] + 5) + a.shape[2:], 7, a.dtype); b[1:-2, 3:-2] = a; r = b[1:-2, 3:-2]
    elif k == "columns": r = np.repeat(a, 2, axis=1)[:, ::2]
    elif k == "swapped" and a.dtype.itemsize > 1: r = a.astype(a.dtype.newbyteorder("S"))
    elif k == "readonly": r = a.copy(); r.setflags(write=False)
    else: r = a.copy()
    assert np.array_equal(r, a); return r

def make_region(s):
    k = s["kind"]
    if k == "rectangle": return Rectangle.create(*s["at"])
    if k == "polygon": return Polygon.create([tuple(p) for p in s["points"]])
    if k == "special": return Special.create(s["code"])
    return Mask.create(array(s["array"]), s["x"], s["y"])
def same_region(r, s, where, remote=False):
    k = s["kind"]; check(r is not None, where + ": no region"); check(r.type == k, where + ": type of the region", r.type, k); str(r)
    if k == "rectangle": check(isinstance(r, Rectangle) and tuple(r.bounds()) == tuple(s["at"]), where + ": rectangle", r.bounds(), s["at"])
    elif k == "polygon":
        p = [tuple(x) for x in s["points"]]; check(r.size() == len(p), where + ": number of points", r.size(), len(p)); check(list(r) == p, where + ": points", list(r), p)
        check([r[i] for i in range(len(p))] == p and [r.get(i) for i in range(len(p))] == p, where + ": points by index")
        for i in (-1, len(p)):
            try: r.get(i)
            except IndexError: continue
            check(False, where + ": a point that does not exist", i)
    elif k == "special": check(r.code == s["code"], where + ": code", r.code, s["code"])
    else:
        a = content(s["array"]); check(r.size() == (a.shape[1], a.shape[0]), where + ": size of the mask", r.size(), a.shape); check(r.offset() == (s["x"], s["y"]), where + ": offset of the mask", r.offset())
        check(np.array_equal(r.array() != 0, a != 0) and (remote or np.array_equal(r.array(), a)), where + ": pixels of the mask", r.array(), a)
        n = r.array(normalize=True); w = np.zeros((max(0, a.shape[0] + s["y"]), max(0, a.shape[1] + s["x"])), np.uint8); cut = a[max(0, -s["y"]):, max(0, -s["x"]):]
        if cut.size: w[max(0, s["y"]):, max(0, s["x"]):] = cut
        check(np.array_equal(n != 0, w != 0), where + ": pixels of the padded mask", n.shape, w.shape)

PNG = b"\x89PNG\r\n\x1a\n"; JPG = b"\xff\xd8\xff\xe0"
def encoded(s): return (PNG if s["format"] == "png" else JPG[:3] + (b"\xe0", b"\xe1", b"\xdb")[s["seed"] % 3]) + np.random.default_rng(s["seed"]).bytes(s["size"])
def make_image(s):
    k = s["kind"]
    if k == "path": return FileImage.create(s["text"])
    if k == "url": return URLImage.create(s["text"])
    if k == "buffer": return BufferImage.create(encoded(s))
    return MemoryImage.create(array(s["array"]))
def same_image(i, s, where):
    k = s["kind"]; check(i is not None, where + ": no image"); check(i.type() == k, where + ": type of the image", i.type(), k); text = str(i)
    if k == "path": check(i.path() == s["text"], where + ": path", i.path(), s["text"])
    elif k == "url": check(i.url() == s["text"], where + ": address", i.url(), s["text"])
    elif k == "buffer": check(i.buffer() == encoded(s), where + ": encoded image"); check(s["format"].replace("jpg", "jpeg") in text and str(len(encoded(s))) in text, where + ": description of the image", text)
    else:
        a = content(s["array"]); a = a if a.ndim == 3 else a[:, :, None]; b = i.array(); check(b.dtype == a.dtype and b.shape == a.shape, where + ": form of the image", b.dtype, b.shape, a.dtype, a.shape); check(np.array_equal(b, a), where + ": pixels of the image")

def same_dict(got, want, where):
    got = dict(got); check(set(got) == set(want), where + ": names of the properties", sorted(got), sorted(want))
    for k, v in want.items(): check(got[k] == str(v), where + ": value of a property", k, got[k], v)

# ---------------------------------------------------------------- cases: values
def run_values(case):
    live = []
    for n, op in enumerate(case["ops"]):
        k, s, w = op["op"], op.get("value"), "operation %d" % n
        if k == "region": r = make_region(s); same_region(r, s, w); live.append((same_region, r, s))
        elif k == "image": i = make_image(s); same_image(i, s, w); live.append((same_image, i, s))
        elif k == "properties":
            p = Properties(s) if s or op.get("dict") else Properties(); model = {a: str(b) for a, b in s.items()}; same_dict(p.dict(), model, w)
            for a, b in op["sets"]:
                if op["item"]: p[a] = b
                else: p.set(a, b)
                model[a] = str(b)
            same_dict(p.dict(), model, w)
            for a in list(model) + ["absent.key"]: check(p.get(a) == model.get(a), w + ": value of a property", a, p.get(a), model.get(a)); check(p.get(a, "other") == model.get(a, "other"), w + ": default of a property")
            for a in model: check(p[a] == model[a], w + ": item of the properties", a, p[a], model[a])
            q = Properties(op["other"]); q.copy(p); m2 = {a: str(b) for a, b in op["other"].items()}; m2.update(model); same_dict(q.dict(), m2, w + " (copied)"); live.append((lambda x, y, z: same_dict(x.dict(), y, z), q, m2))
        elif k == "list":
            tl = trax.wrap_objects([(make_region(a), b) for a, b in s]); got = trax.wrap_object_list(tl.reference); del tl; gc.collect()
            check(len(got) == len(s), w + ": number of objects")
            for (r, p), (a, b) in zip(got, s): same_region(r, a, w + " (list)"); same_dict(p, b, w + " (list)"); live.append((same_region, r, a))
        elif k == "drop" and live: del live[op["index"] % len(live)]
    gc.collect()
    for f, v, s in live: f(v, s, "at the end")

# ---------------------------------------------------------------- cases: sessions
class Left(Exception):
    """ends the block of a server"""
def server_process(case, report):
    out = []; sp = case["server"]
    try:
        meta = sp["custom"]; kw = dict(image_channels=sp["channels"], tracker_name=sp["name"], tracker_description=sp["description"], tracker_family=sp["family"], metadata=meta, multiobject=sp["multi"])
        if case.get("log"): kw["log"] = case["log"] + ".server"
        server = Server(sp["regions"], sp["images"], **kw); keep = []
        def loop(server):
            for n, step in enumerate(case["steps"]):
                w = "request %d at the server" % n; r = server.wait()
                check(r.type == (TraxStatus.INITIALIZE if step["do"] == "initialize" else TraxStatus.FRAME), w + ": type", r.type)
                check(isinstance(r.image, dict) and sorted(r.image) == sorted(sp["channels"]), w + ": channels", r.image)
                for c in sp["channels"]: same_image(r.image[c], step["images"][c], w)
                check(len(r.objects or []) == len(step["objects"]), w + ": number of objects", r.objects)
                for (reg, props), (a, b) in zip(r.objects or [], step["objects"]): same_region(reg, a, w, True); same_dict(props, b, w + ", object")
                same_dict(r.properties.dict(), step["properties"], w); keep.append((r, step))
                if step.get("quit") is not None:
                    if step.get("raise") and case["with"] and not step.get("leave"): raise Left(step["quit"])
                    if not step.get("leave"): server.quit(*([step["quit"]] if step["quit"] else []))
                    return
                server.status([(make_region(a), b) for a, b in step["answer"]])
            r = server.wait(); check(r.type == TraxStatus.QUIT, "the end at the server", r.type)
            check(case["drop"] or r.properties.get("trax.reason", case["reason"]) == case["reason"], "reason at the server", r.properties.dict(), case["reason"])
        if case["with"] and not any(s.get("quit") is not None and not s.get("raise") for s in case["steps"]):
            try:
                with server: loop(server)
            except Left: pass
        else: loop(server)
        for r, step in keep:
            for c in sp["channels"]: same_image(r.image[c], step["images"][c], "image kept by the server")
        del server
        msg = None
    except Failed as e: msg = str(e)
    except BaseException as e: msg = "exception at the server: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))
    gc.collect(); os.write(report, pickle.dumps(msg)); os._exit(0)

def run_session(case):
    tmp = None
    if case.get("log"): tmp = tempfile.mkdtemp(prefix="traxpy-", dir=os.environ.get("TMPDIR")); case = dict(case, log=os.path.join(tmp, "log"))
    rr, rw = os.pipe(); listener = None
    if case["socket"]:
        listener = socket.socket(); listener.bind(("127.0.0.1", 0)); listener.listen(1); port = listener.getsockname()[1]
    else: a, b = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(15)
        for k in ("TRAX_SOCKET", "TRAX_IN", "TRAX_OUT"): os.environ.pop(k, None)
        if listener: listener.close(); os.environ["TRAX_SOCKET"] = str(port)
        else: os.dup2(a[0], 0); os.dup2(b[1], 1); [os.close(x) for x in a + b]
        os.close(rr); server_process(case, rw)
    os.close(rw); logged = []
    try:
        kw = {}
        if case.get("log"): kw["log"] = logged.append if case["proxy"] else case["log"] + ".client"
        if listener: client = Client(listener.fileno(), timeout=10, **kw)
        else: os.close(a[0]); os.close(b[1]); client = Client((a[1], b[0]), **kw)
        sp = case["server"]
        check(sorted(client.channels) == sorted(sp["channels"]), "channels at the client", client.channels); check(sorted(client.image_formats) == sorted(sp["images"]), "image formats at the client", client.image_formats)
        check(sorted(x for x in client.region_formats if x != "special") == sorted(sp["regions"]), "region formats at the client", client.region_formats)
        for k in ("name", "description", "family"): v = getattr(client, "tracker_" + k); check(v == sp[k], k + " at the client", v, sp[k])
        for k, v in sp["custom"].items(): check(client.get(k) == str(v), "metadata at the client", k, client.get(k), v)
        check(client.get("absent.key") is None, "absent metadata"); check(bool(client.get("multiobject")) == sp["multi"], "several objects at the client")
        keep = []; ended = False
        for n, step in enumerate(case["steps"]):
            w = "answer %d at the client" % n; im = {c: make_image(step["images"][c]) for c in sp["channels"]}; ob = [(make_region(x), y) for x, y in step["objects"]]
            try:
                if step["do"] == "initialize": got, el = client.initialize(im, ob, step["properties"])
                elif ob: got, el = client.frame(im, step["properties"], ob)
                elif step["properties"] or n % 2: got, el = client.frame(im, step["properties"])
                else: got, el = client.frame(im)
            except TraxException as e:
                if step.get("quit") is None: raise
                check(step.get("leave") or step["quit"] in str(e), "reason at the client", str(e), step["quit"]); ended = True; break
            check(step.get("quit") is None, w + " after the end"); check(el >= 0 and len(got) == len(step["answer"]), w + ": number of objects", len(got), len(step["answer"]))
            for (reg, props), (x, y) in zip(got, step["answer"]): same_region(reg, x, w, True); same_dict(props, y, w + ", object"); keep.append((reg, x))
            for c in im: same_image(im[c], step["images"][c], "image of the client after the request")
            for (reg, _), (x, y) in zip(ob, step["objects"]): same_region(reg, x, "region of the client after the request")
        if not ended and not case["drop"]: client.quit(*([] if case["reason"] is None else [case["reason"]]))
        for r, s in keep: same_region(r, s, "kept answer", True)
        if listener is None and case["steps"] and ended: pass
        del client; gc.collect()
        msg = None
    except BaseException as e:
        msg = str(e) if isinstance(e, Failed) else "exception at the client: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))
        client = None; del e; gc.collect()
        if listener is None:
            for x in (a[1], b[0]):
                try: os.close(x)
                except OSError: pass
    data = b""; stopped = False
    while True:
        if msg and not stopped and not select.select([rr], [], [], 2)[0]: os.kill(pid, signal.SIGKILL); stopped = True
        x = os.read(rr, 65536)
        if not x: break
        data += x
    _, st = os.waitpid(pid, 0)
    if stopped: raise Failed(msg)
    smsg = pickle.loads(data) if data else "the server process ended with status %d" % st
    try:
        if smsg and (msg is None or "exception at the client" in msg): raise Failed(smsg)
        if msg: raise Failed(msg)
        if st: raise Failed("the server process ended with status %d" % st)
        if case.get("log"):
            s = open(case["log"] + ".server", encoding="utf8", newline="").read(); c = "".join(logged) if case["proxy"] else open(case["log"] + ".client", encoding="utf8", newline="").read()
            n = min(len(s), len(c)); check(s[:n] == c[:n], "logs of the two sides differ", next((s[max(0, i - 30):i + 30], c[max(0, i - 30):i + 30]) for i in range(n) if s[i] != c[i]) if s[:n] != c[:n] else "")
            check(s.startswith("@@TRAX:hello ") and abs(len(s) - len(c)) < 400 + 2 * len(case["reason"] or ""), "a log is incomplete", len(s), len(c))
            for t in [sp["name"]] + [y for st_ in case["steps"] for y in st_["properties"].values()]:
                if isinstance(t, str) and not set(t) & set('"\\\n\r'): check(t in s and t in c, "a text is missing in the log", t)
    finally:
        if tmp: shutil.rmtree(tmp, ignore_errors=True)

def run_refused(case):
    """a peer that does not speak the protocol: an exception that says what failed, never a client or a server; nothing is left open"""
    a, b = os.pipe(), os.pipe(); os.write(b[1], case["bytes"].encode("latin-1")); logged = []
    if case["close"]: os.close(b[1])
    else: os.write(b[1], b"\n@@TRAX:quit\n")
    try:
        if case["side"] == "client": Client((a[1], b[0]), **({"log": logged.append} if case["log"] else {}))
        else:
            os.environ["TRAX_IN"], os.environ["TRAX_OUT"] = str(b[0]), str(a[1])
            s = Server(["rectangle"], ["path"]); ok = s.wait()
            check(ok.type == TraxStatus.QUIT, "a request that was never sent", ok); return
    except TraxException as e: check(len(str(e)) > 0, "an exception without a text"); check(not case["log"] or case["side"] == "server" or len("".join(logged)) <= len(case["bytes"]) + 400, "more is logged than was sent"); return
    check(False, "a client without a tracker")

def run_case(case): {"values": run_values, "session": run_session, "refused": run_refused}[case["kind"]](case)

def forked(case):
    """runs a case in a process of its own: None, or what failed"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        gc.freeze(); os.close(r); signal.alarm(25); e = os.open(os.environ.get("PYPROP_ERR", "/dev/null"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600); os.dup2(e, 2)
        try: run_case(case); m = None
        except Failed as x: m = str(x)
        except BaseException as x: m = "exception: " + "".join(traceback.format_exception_only(type(x), x)).strip() + " @ " + " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(x.__traceback__)[-3:]))
        os.write(w, pickle.dumps(m)); os._exit(0)
    os.close(w); data = b""
    while True:
        x = os.read(r, 65536)
        if not x: break
        data += x
    os.close(r); _, st = os.waitpid(pid, 0)
    if not data or st:
        tail = ""
        try:
            for l in open(os.environ.get("PYPROP_ERR", "/dev/null"), errors="replace"):
                if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l: tail = l.strip()[:200]; break
        except OSError: pass
        return ("the case did not end" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else "crash, status %d" % st) + " " + tail
    return pickle.loads(data)

# ---------------------------------------------------------------- generators
def strategies():
    from hypothesis import strategies as st
    coord = st.integers(-16000, 16000).map(lambda v: v / 16); size = st.integers(0, 16000).map(lambda v: v / 16)
    alphabet = st.characters(blacklist_categories=["Cs"], blacklist_characters="\0")
    text = st.one_of(st.text(alphabet, max_size=20), st.text("abc \"\\=\n\t,;äöü漢字🙂", max_size=20), st.just(""), st.text("xyz", min_size=1, max_size=400))
    said = st.text("äöü漢字🙂 x", min_size=1, max_size=12)
    path = st.text(alphabet, min_size=1, max_size=30).filter(lambda s: s.strip() != "").map(lambda s: "/" + s)
    url = st.builds(lambda a, b: a + b, st.sampled_from(["http://", "https://", "ftp://", "s3://", "HTTP://"]), st.text(alphabet, min_size=1, max_size=30))
    key = st.text("abcXYZ012._", min_size=1, max_size=12).filter(lambda k: not k.startswith("trax."))
    value = st.one_of(text, st.integers(-1000, 1000), st.floats(-1e6, 1e6, allow_nan=False), st.booleans())
    props = st.dictionaries(key, value, max_size=4)
    dim = st.integers(1, 12); layout = st.sampled_from(LAYOUTS); seed = st.integers(0, 2**32 - 1)
    def arr(shape, dtype, **kw): return st.fixed_dictionaries(dict(shape=shape, dtype=st.just(dtype), layout=layout, seed=seed, **{k: st.just(v) for k, v in kw.items()}))
    two = st.tuples(dim, dim).map(list); one = st.tuples(dim, dim, st.just(1)).map(list); three = st.tuples(dim, dim, st.just(3)).map(list)
    memory = st.one_of(arr(three, "u1"), arr(two, "u1"), arr(one, "u1"), arr(two, "u2"), arr(one, "u2"))
    off = st.integers(-15, 15)
    region = {"rectangle": st.fixed_dictionaries(dict(kind=st.just("rectangle"), at=st.tuples(coord, coord, size, size).map(list))),
              "polygon": st.fixed_dictionaries(dict(kind=st.just("polygon"), points=st.lists(st.tuples(coord, coord).map(list), min_size=3, max_size=12))),
              "special": st.fixed_dictionaries(dict(kind=st.just("special"), code=st.integers(-2**31, 2**31 - 1))),
              "mask": st.fixed_dictionaries(dict(kind=st.just("mask"), array=st.one_of(arr(two, "u1", mask=True), arr(two, "u1", mask=True, on=255), arr(two, "u1", mask=True, on=2)), x=off, y=off))}
    image = {"path": st.fixed_dictionaries(dict(kind=st.just("path"), text=path)), "url": st.fixed_dictionaries(dict(kind=st.just("url"), text=url)),
             "memory": st.fixed_dictionaries(dict(kind=st.just("memory"), array=memory)),
             "buffer": st.fixed_dictionaries(dict(kind=st.just("buffer"), format=st.sampled_from(["png", "jpg"]), size=st.one_of(st.integers(1, 50), st.integers(1, 5000)), seed=seed))}
    anyregion = st.one_of(*region.values()); anyimage = st.one_of(*image.values())
    op = st.one_of(st.fixed_dictionaries(dict(op=st.just("region"), value=anyregion)), st.fixed_dictionaries(dict(op=st.just("image"), value=anyimage)),
                   st.fixed_dictionaries(dict(op=st.just("properties"), value=props, dict=st.booleans(), sets=st.lists(st.tuples(key, value).map(list), max_size=5), item=st.booleans(), other=props)),
                   st.fixed_dictionaries(dict(op=st.just("list"), value=st.lists(st.tuples(anyregion, props).map(list), min_size=1, max_size=4))),
                   st.fixed_dictionaries(dict(op=st.just("drop"), index=st.integers(0, 20))))
    values = st.fixed_dictionaries(dict(kind=st.just("values"), ops=st.lists(op, min_size=1, max_size=8)))
    @st.composite
    def session(draw):
        sub = lambda v: st.lists(st.sampled_from(v), min_size=1, unique=True)
        sp = dict(regions=draw(sub(["rectangle", "polygon", "mask"])), images=draw(sub(list(image))), channels=draw(st.one_of(st.just(["color"]), sub(["color", "depth", "ir"]))),
                  name=draw(text), description=draw(text), family=draw(text), custom=draw(props.map(lambda d: {k: v for k, v in d.items() if k != "multiobject"})), multi=draw(st.booleans()))
        def images(): return {c: draw(image[draw(st.sampled_from(sp["images"]))]) for c in sp["channels"]}
        def objects(n, kinds): return [[draw(region[draw(st.sampled_from(kinds))]), draw(props)] for _ in range(n)]
        steps, tracked = [], 0; ends = draw(st.sampled_from([False, False, False, True]))
        for n in range(draw(st.integers(1 if ends else 0, 5))):
            do = "initialize" if n == 0 or draw(st.integers(0, 4)) == 0 else "frame"
            if do == "initialize": k = draw(st.integers(1, 3)) if sp["multi"] else 1; tracked = k
            else: k = draw(st.sampled_from([0, 0, 1, 2])) if sp["multi"] else 0; tracked += k
            steps.append(dict(do=do, images=images(), objects=objects(k, sp["regions"]), properties=draw(props), answer=objects(tracked, list(region))))
        if ends: steps[-1]["quit"] = draw(st.one_of(said, said, st.just(""), text)); steps[-1]["leave"] = draw(st.sampled_from([False, False, False, True])); steps[-1]["raise"] = draw(st.sampled_from([False, True]))
        return dict(kind="session", server=sp, steps=steps, reason=draw(st.one_of(st.none(), said, text)), drop=draw(st.integers(0, 5)) == 0, socket=draw(st.integers(0, 3)) == 0, log=draw(st.integers(0, 3)) == 0, proxy=draw(st.booleans()), **{"with": draw(st.booleans())})
    junk = st.one_of(st.just(""), st.text(st.characters(min_codepoint=0, max_codepoint=255), max_size=200), st.lists(st.sampled_from(["@@TRAX:", "hello", "state", "frame", "\n", " ", "\"", "=", "trax.version=4", "x"]), max_size=8).map("".join)).filter(lambda s: "@@TRAX:hello" not in s and "@@TRAX:initialize" not in s)
    refused = st.fixed_dictionaries(dict(kind=st.just("refused"), bytes=junk, close=st.booleans(), side=st.sampled_from(["client", "server"]), log=st.booleans()))
    return st.one_of(values, values, values, values, session(), session(), session(), session(), session(), refused)

def nontrivial(case):
    if case["kind"] == "values": return sum(1 for o in case["ops"] if o["op"] != "drop") > 0
    return case["kind"] == "refused" or len(case["steps"]) > 0

# ---------------------------------------------------------------- search
class Stop(BaseException): pass
def worker(index, seed, deadline, out, shrink):
    warnings.filterwarnings("ignore"); os.environ["PYPROP_ERR"] = out + ".err"
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    res = dict(evaluations=0, nontrivial=0, hashes=set(), classes={}, samples=[], failure=None); strat = strategies(); state = dict(best=None, first=None)
    def tag(t): res["classes"][t] = res["classes"].get(t, 0) + 1
    def body(case):
        if state["first"] and time.time() > state["first"] + shrink: raise Stop()
        if not state["first"] and time.time() > deadline: raise Stop()
        text = json.dumps(case, sort_keys=True); m = forked(case)
        if not state["first"]:
            res["evaluations"] += 1
            if nontrivial(case):
                res["nontrivial"] += 1; res["hashes"].add(hashlib.sha1(text.encode()).digest()[:8])
                if case["kind"] == "session":
                    tag("session"); sp = case["server"]; tag("several objects" if sp["multi"] else "one object")
                    if case["socket"]: tag("socket")
                    if case["log"]: tag("log")
                    if any(s.get("quit") is not None for s in case["steps"]): tag("ended by the server")
                    elif case["reason"]: tag("reason of the client")
                    if any(s["do"] == "frame" and s["objects"] for s in case["steps"]): tag("objects added")
                elif case["kind"] == "refused": tag("peer that does not speak the protocol")
                else:
                    for o in case["ops"]: tag(o["op"])
                if len(res["samples"]) < 2: res["samples"].append(text[:240])
        if m:
            if not state["first"]: state["first"] = time.time()
            if state["best"] is None or len(text) < len(state["best"][1]): state["best"] = (m, text)
            raise Failed("case failed")
    round_ = 0
    while time.time() < deadline and not state["best"]:
        f = hseed(seed * 1000 + index * 97 + round_ * 7919)(settings(max_examples=100, database=None, deadline=None, print_blob=False, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])(given(strat)(body)))
        try: f()
        except Stop: pass
        except Exception:
            if not state["best"]: traceback.print_exc(); os._exit(3)
        round_ += 1
    res["failure"] = state["best"]
    with open(out, "wb") as fp: pickle.dump(res, fp)
    os._exit(0)

def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    if "--replay" in a:
        case = json.loads("".join(l for l in open(a["--replay"]) if not l.startswith(("#", "property "))))
        m = forked(case); print("FAILED C30 " + m if m else "PASSED C30"); sys.exit(1 if m else 0)
    t0 = time.time(); deadline = t0 + float(a["--time"]); n = int(a["--workers"]); pids = []
    strategies(); sys.stdout.flush()
    for i in range(n):
        p = os.fork()
        if p == 0: worker(i, int(a["--seed"]), deadline, a["--out"] + ".%d" % i, float(a["--shrink"]))
        pids.append(p)
    total = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0, discarded=0, unreproduced=0, classes={}, samples=[], rule="values created through the package, or a session of a Python server and a Python client; non-trivial if it creates a value or has at least one request",
                 assumptions=["coordinates are multiples of 1/16, exact in the printed decimals", "texts contain no NUL characters and no surrogates", "properties given to Server.status as a whole are not covered: the protocol has no place for them"])
    bad = 0; hashes = set(); best = None
    for i, p in enumerate(pids):
        _, st = os.waitpid(p, 0)
        if st: bad += 1; continue
        r = pickle.load(open(a["--out"] + ".%d" % i, "rb"))
        for k in ("evaluations", "nontrivial"): total[k] += r[k]
        for k, v in r["classes"].items(): total["classes"][k] = total["classes"].get(k, 0) + v
        hashes |= r["hashes"]; total["samples"] = (total["samples"] + r["samples"])[:6]
        if r["failure"] and (best is None or len(r["failure"][1]) < len(best[1])): best = r["failure"]
    if bad: print("worker failed", file=sys.stderr); sys.exit(3)
    total["distinct_nontrivial"] = len(hashes)
    if best:
        with open(a["--failure"], "w") as f: f.write("# %s\nproperty C30\n%s\n" % (best[0].replace("\n", " "), best[1]))
        total.update(kind="failure", detail=best[0], replay=a["--failure"])
    json.dump(total, open(a["--out"], "w"))
    sys.exit(1 if best else 0)
main()
