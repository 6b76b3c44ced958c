"""access to the Django backend"""
import re
from django.conf import settings
if not settings.configured: settings.configure(SECRET_KEY="vp", CSRF_USE_SESSIONS=False, DEFAULT_CHARSET="utf-8")
import django
django.setup()
from django.http import HttpRequest
from hypertag.django.backend import Hypertag

def backend(dirs):
    return Hypertag({"NAME": "hypertag", "DIRS": dirs, "APP_DIRS": False, "OPTIONS": {}})
def request():
    r = HttpRequest()
    r.method, r.path = "GET", "/vp"
    return r
TOKEN = re.compile(r"\b[A-Za-z0-9]{64}\b")
INPUT = re.compile(r"(<|&lt;)input[^\n]*csrfmiddlewaretoken[^\n]*TOKEN[^\n]*(>|&gt;)")
def render(be, how, name, src, ctx, req):
    t = be.get_template(name) if how == "file" else be.from_string(src)
    args = (ctx,) if not req else (ctx, request())
    return INPUT.sub("IN", TOKEN.sub("TOKEN", t.render(*args)))

SHARED = []
def same(src, ob, via, probes, exc_classes, exc_line, opaque, observing):
    """run the script as a template, too: anything that differs from the observation `ob` goes into it"""
    import tempfile, os, shutil
    def f(src):
        pr = probes()
        ctx = dict(pr.vars, **{"%" + k: v for k, v in pr.tags.items()})
        d = tempfile.mkdtemp(prefix="vpd")
        try:
            if via == "file":
                with open(os.path.join(d, "t.hy"), "w", encoding="utf-8", newline="") as h: h.write(src)
                t = backend([d]).get_template("t.hy")
            else:
                if not SHARED: SHARED[:] = [backend([])]
                t = SHARED[0].from_string(src)
            er, cls, ln, text = "", [], 0, [""]
            try: text = t.render(ctx).split("\n")
            except BaseException as ex:
                if not isinstance(ex, Exception) and type(ex).__name__ != "Kbd": raise
                cls, ln = exc_classes(ex), exc_line(ex); er = cls[0]
            return [er, cls, ln, text, list(pr.log)]
        finally: shutil.rmtree(d, ignore_errors=True)
    er, cls, ln, text, log = opaque(list(observing(src, f)))
    if er != ob["er"]: ob.update(er=er, cls=cls, ln=ln)
    elif ln != ob["ln"]: ob["ln"] = ln
    if text != ob["t"]: ob["t"] = text
    if log != ob["lg"]: ob["lg"] = log
