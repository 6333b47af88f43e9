"""Status constants, exceptions and value objects mean what they say.

Every constant of starlette.status is looked up in the analysed module and compared with the number in its name and with the registry of HTTP status
codes; exceptions, users, credentials, addresses, secrets, comma separated strings, background tasks and middleware descriptions are built by a client
program from a table of arguments, and what each public operation on them gives is compared with the documentation.
"""
import http as _http
from itertools import permutations

from ..mw import *
from ..tasks import ASYNC_SRC
from .c29 import Env29, Judge as Judge29, plain
from .c20 import value
from .c30 import call, lit
from .common import *

CLIENT41 = ASYNC_SRC + '''
from starlette import status
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, BaseUser, SimpleUser, UnauthenticatedUser
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.concurrency import run_until_first_complete
from starlette.datastructures import Address, CommaSeparatedStrings, Secret
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware import Middleware
from starlette.requests import ClientDisconnect
from starlette.websockets import WebSocketDisconnect

class Shlex:
    def __init__(self, value=None, posix=False, punctuation_chars=False):
        self.value = value
        self.posix = posix
        self.whitespace = None
        self.whitespace_split = False
        self.commenters = None
        self.quotes = None
        self.escape = None
    def __iter__(self):
        return iter(env_shlex(self.value, self.posix, self.whitespace, self.whitespace_split, self.commenters, self.quotes, self.escape))

def constants(names):
    return [getattr(status, n) for n in names]

class TeapotError(HTTPException):
    pass

def http_error(cls, args, kwargs):
    e = (TeapotError if cls else HTTPException)(*args, **kwargs)
    return [e.status_code, e.detail, e.headers, str(e), repr(e), isinstance(e, Exception)]

def ws_error(args, kwargs):
    e = WebSocketException(*args, **kwargs)
    return [e.code, e.reason, str(e), repr(e), isinstance(e, Exception)]

def ws_disconnect(args, kwargs):
    e = WebSocketDisconnect(*args, **kwargs)
    return [e.code, e.reason, isinstance(e, Exception), isinstance(ClientDisconnect(), Exception), isinstance(AuthenticationError("x"), Exception)]

def users(name):
    u, n = SimpleUser(name), UnauthenticatedUser()
    return [u.is_authenticated, u.display_name, u.username, n.is_authenticated, n.display_name, isinstance(u, BaseUser), isinstance(n, BaseUser)]

def credentials(scopes, tup):
    given = tuple(scopes) if tup else scopes
    c = AuthCredentials(given)
    d = AuthCredentials()
    e = AuthCredentials()
    if not tup:
        scopes.append("later")
    d.scopes.append("mine")
    return [c.scopes, d.scopes, e.scopes]

class Me(BaseUser):
    pass

def base(name):
    try:
        getattr(Me(), name)
    except NotImplementedError:
        return "not implemented"
    return "nothing"

async def backend():
    try:
        await AuthenticationBackend().authenticate(None)
    except NotImplementedError:
        return "not implemented"
    return "nothing"

def address(host, port):
    a = Address(host, port)
    h, p = a
    return [a.host, a.port, h, p, a[0], a[1], a == (host, port)]

def secret(value):
    s = Secret(value)
    return [str(s), repr(s), bool(s), f"{s}", "%s" % s]

def comma(value, tup):
    given = value
    c = CommaSeparatedStrings(tuple(value) if tup else value)
    if not tup and isinstance(value, list):
        value.append("absent")
    items = [x for x in c]
    return [items, len(c), [c[i] for i in range(len(items))], c[-1] if items else None, list(c[0:1]), str(c), repr(c), [x in c for x in items], "absent" in c]

def middleware(args, kwargs):
    class Some:
        pass
    m = Middleware(Some, *args, **kwargs)
    cls, a, k = m
    return [cls is Some, list(a), k, m.cls is Some, list(m.args), m.kwargs, repr(m)]

class Rec:
    def __init__(self):
        self.log = []
        self.tasks = None
    def plain(self, *args, **kwargs):
        self.log.append(["plain", list(args), kwargs])
    async def coro(self, *args, **kwargs):
        self.log.append(["coro", list(args), kwargs])
    async def slow(self, *args, **kwargs):
        self.log.append(["slow starts", list(args), kwargs])
        await pause()
        self.log.append(["slow ends"])
    async def never(self, *args, **kwargs):
        self.log.append(["never", list(args), kwargs])
        await env_block(self)
    def fails(self, *args, **kwargs):
        self.log.append(["fails", list(args), kwargs])
        raise ValueError("x")
    async def more(self, *args, **kwargs):
        self.log.append(["more", list(args), kwargs])
        self.tasks.add_task(self.plain, "added")

async def pause():
    return None

async def one_task(name, args, kwargs):
    rec = Rec()
    task = BackgroundTask({"plain": rec.plain, "coro": rec.coro, "slow": rec.slow, "fails": rec.fails}[name], *args, **kwargs)
    before = len(rec.log)
    try:
        result = await task()
    except ValueError:
        result = "raised"
    return [before, rec.log, result]

async def tasks(given, added):
    rec = Rec()
    f = {"plain": rec.plain, "coro": rec.coro, "slow": rec.slow, "fails": rec.fails, "more": rec.more}
    first = None if given is None else [BackgroundTask(f[n], *a, **k) for n, a, k in given]
    ts = BackgroundTasks(first)
    rec.tasks = ts
    for n, a, k in added:
        ts.add_task(f[n], *a, **k)
    before = len(rec.log)
    try:
        result = await ts()
    except ValueError:
        result = "raised"
    return [before, rec.log, result, None if first is None else len(first)]

async def race(given):
    rec = Rec()
    f = {"coro": rec.coro, "slow": rec.slow, "never": rec.never}
    result = await run_until_first_complete(*[(f[n], k) for n, k in given])
    return [rec.log, result]
'''
HTTP = """100_CONTINUE 101_SWITCHING_PROTOCOLS 102_PROCESSING 103_EARLY_HINTS 200_OK 201_CREATED 202_ACCEPTED 203_NON_AUTHORITATIVE_INFORMATION 204_NO_CONTENT 205_RESET_CONTENT 206_PARTIAL_CONTENT 207_MULTI_STATUS
208_ALREADY_REPORTED 226_IM_USED 300_MULTIPLE_CHOICES 301_MOVED_PERMANENTLY 302_FOUND 303_SEE_OTHER 304_NOT_MODIFIED 305_USE_PROXY 306_RESERVED 307_TEMPORARY_REDIRECT 308_PERMANENT_REDIRECT 400_BAD_REQUEST
401_UNAUTHORIZED 402_PAYMENT_REQUIRED 403_FORBIDDEN 404_NOT_FOUND 405_METHOD_NOT_ALLOWED 406_NOT_ACCEPTABLE 407_PROXY_AUTHENTICATION_REQUIRED 408_REQUEST_TIMEOUT 409_CONFLICT 410_GONE 411_LENGTH_REQUIRED
412_PRECONDITION_FAILED 413_REQUEST_ENTITY_TOO_LARGE 414_REQUEST_URI_TOO_LONG 415_UNSUPPORTED_MEDIA_TYPE 416_REQUESTED_RANGE_NOT_SATISFIABLE 417_EXPECTATION_FAILED 418_IM_A_TEAPOT 421_MISDIRECTED_REQUEST
422_UNPROCESSABLE_ENTITY 423_LOCKED 424_FAILED_DEPENDENCY 425_TOO_EARLY 426_UPGRADE_REQUIRED 428_PRECONDITION_REQUIRED 429_TOO_MANY_REQUESTS 431_REQUEST_HEADER_FIELDS_TOO_LARGE 451_UNAVAILABLE_FOR_LEGAL_REASONS
500_INTERNAL_SERVER_ERROR 501_NOT_IMPLEMENTED 502_BAD_GATEWAY 503_SERVICE_UNAVAILABLE 504_GATEWAY_TIMEOUT 505_HTTP_VERSION_NOT_SUPPORTED 506_VARIANT_ALSO_NEGOTIATES 507_INSUFFICIENT_STORAGE 508_LOOP_DETECTED
510_NOT_EXTENDED 511_NETWORK_AUTHENTICATION_REQUIRED""".split()
WS = """1000_NORMAL_CLOSURE 1001_GOING_AWAY 1002_PROTOCOL_ERROR 1003_UNSUPPORTED_DATA 1005_NO_STATUS_RCVD 1006_ABNORMAL_CLOSURE 1007_INVALID_FRAME_PAYLOAD_DATA 1008_POLICY_VIOLATION 1009_MESSAGE_TOO_BIG
1010_MANDATORY_EXT 1011_INTERNAL_ERROR 1012_SERVICE_RESTART 1013_TRY_AGAIN_LATER 1014_BAD_GATEWAY 1015_TLS_HANDSHAKE""".split()


class Env41(Env29):
    def __init__(self, order=None):
        super().__init__()
        self.order = order

    def start_soon(self, eng, st, tg, args, kwargs, node):
        if self.order is None:
            return super().start_soon(eng, st, tg, args, kwargs, node)
        st.mon["later"] = st.mon.get("later", ()) + ((tg, args[0], tuple(args[1:])),)
        return ok(st, NONE)

    def tg_exit(self, eng, st, cm, k, v, node):
        """the tasks of the group get to run in the given order; one that waits for ever ends only if the group is cancelled"""
        mine = [x for x in st.mon.get("later", ()) if x[0] is cm]
        st.mon["later"] = tuple(x for x in st.mon.get("later", ()) if x[0] is not cm)
        cur = [(k, st, v)]
        for i in (self.order or ()) if mine else ():
            nx = []
            for k1, s, v1 in cur:
                if k1 == "raise" or cm in s.mon.get("cancelled", frozenset()) or i >= len(mine):
                    nx.append((k1, s, v1))
                    continue
                for k2, s2, v2 in eng.bind(eng.call(s, mine[i][1], list(mine[i][2]), {}, node), lambda s, r: eng.await_(s, r, node)):
                    if k2 == "raise" and is_t(v2, "exc") and v2.a[1] == "ext.Blocked":
                        s2.mon["waiting"] = s2.mon.get("waiting", 0) + 1
                        k2 = "ok"
                    nx.append((k1, s2, v1) if k2 == "ok" else (k2, s2, v2))
            cur = nx
        for n, (k1, s, v1) in enumerate(cur):
            if k1 != "raise" and s.mon.get("waiting") and cm not in s.mon.get("cancelled", frozenset()):
                s.mon["hang"] = True
                cur[n] = ("raise", s, T("exc", "ext.Hang", NONE))
        return [o for k1, s, v1 in cur for o in super(Env41, self).tg_exit(eng, s, cm, k1, v1, node)]

    def on_ext(self, eng, st, q, args, kwargs, node):
        if q == "shlex.shlex":
            return list(eng.call(st, self.client_fn(eng, st, "Shlex"), args, kwargs, node))
        return super().on_ext(eng, st, q, args, kwargs, node)

    def on_call(self, eng, st, name, args, kwargs, node):
        if name == "env_shlex":
            vs = [eng.known(st, a) for a in args]
            if all(is_c(v) for v in vs):
                from shlex import shlex
                text, posix, whitespace, split, commenters, quotes, escape = [cval(v) for v in vs]
                lexer = shlex(text, posix=posix)
                lexer.whitespace_split = split
                for n, v in (("whitespace", whitespace), ("commenters", commenters), ("quotes", quotes), ("escape", escape)):
                    if v is not None:
                        setattr(lexer, n, v)
                return ok(st, eng.new_list(st, node, [C(x) for x in lexer]))
        return super().on_call(eng, st, name, args, kwargs, node)


class Judge(Judge29):
    def play(self, what, fn, *args, order=None):
        ctx = self.ctx
        eng = ctx.engine(Env41(order))
        eng.concrete = 60
        st = eng.start_state()
        outs = [(k, s, value(s, v) if isinstance(v, V) else v) for k, s, v in call(ctx, eng, st, fn, [lit(eng, st, a) for a in args])]
        if len(outs) > 1:
            outs = [o for o in outs if not any(" raises " in x for x in o[1].path())] or outs
        if len(outs) != 1:
            ctx.undecided(f"{what}: {len(outs)} outcomes")
            return eng, None, None
        ctx.oblige("play")
        k, s, v = outs[0]
        if k != "ok":
            if s.mon.get("hang"):
                return eng, s, None
            eng.report("objects", fn, s, f"{what}: {k} {str(v)[:80]}")
            return eng, s, None
        return eng, s, plain(v)

    def eq(self, rule, eng, s, what, got, want):
        self.ctx.oblige("value")
        if plain(got) != plain(want):
            eng.report(rule, what.split("(")[0], s, f"{what}: {str(got)[:200]} instead of {str(want)[:200]}")

    def check(self, rule, fn, args, want, what=None):
        what = what or f"{fn}{tuple(args)}"
        eng, s, r = self.play(what, fn, *args)
        if r is not None:
            self.eq(rule, eng, s, what, r, want)


def run(ctx):
    ctx.rule("constant", "HTTP_n_NAME and WS_n_NAME exist for every registered code and are n")
    ctx.rule("objects", "exceptions, users, credentials, addresses, secrets and comma separated strings keep what they were given and show what is documented")
    ctx.rule("tasks", "a background task calls its function once with its arguments; several run one after the other in order, including those added meanwhile, up to the first failure, which propagates")
    ctx.rule("race", "run_until_first_complete starts every function once with its own arguments and returns when the first is done")
    ctx.client(CLIENT41)
    j = Judge(ctx)
    for prefix, names in (("HTTP_", HTTP), ("WS_", WS)):
        for n in names:
            j.check("constant", "constants", [[prefix + n]], [int(n.split("_")[0])], f"starlette.status.{prefix}{n}")
            ctx.oblige("constant")
    E = j.check
    for code in (404, 405, 500, 418, 200):
        phrase = _http.HTTPStatus(code).phrase
        for cls, name in ((False, "HTTPException"), (True, "TeapotError")):
            E("objects", "http_error", [cls, [code], {}], [code, phrase, None, f"{code}: {phrase}", f"{name}(status_code={code}, detail={phrase!r})", True])
    for args, kw in (([400, "why"], {}), ([400], {"detail": "it's", "headers": {"x": "y"}}), ([400, "", {"a": "b"}], {}), ([], {"status_code": 599, "detail": "odd"})):
        full = {**dict(zip(("status_code", "detail", "headers"), args)), **kw}
        E("objects", "http_error", [False, args, kw], [full["status_code"], full["detail"], full.get("headers"), f"{full['status_code']}: {full['detail']}", f"HTTPException(status_code={full['status_code']}, detail={full['detail']!r})", True])
    for args, kw, code, reason in (([1008], {}, 1008, ""), ([1008, "no"], {}, 1008, "no"), ([], {"code": 4000, "reason": None}, 4000, ""), ([], {"code": 4000, "reason": "it's"}, 4000, "it's")):
        E("objects", "ws_error", [args, kw], [code, reason, f"{code}: {reason}", f"WebSocketException(code={code}, reason={reason!r})", True])
    for args, kw, code, reason in (([], {}, 1000, ""), ([1001], {}, 1001, ""), ([1001, "r"], {}, 1001, "r"), ([], {"reason": "r"}, 1000, "r"), ([], {"reason": None, "code": 4000}, 4000, "")):
        E("objects", "ws_disconnect", [args, kw], [code, reason, True, True, True])
    for name in ("someone", ""):
        E("objects", "users", [name], [True, name, name, False, "", True, True])
    for scopes in ([], ["a"], ["a", "b", "a"]):
        for tup in (False, True):
            E("objects", "credentials", [scopes, tup], [scopes, ["mine"], []])
    for n in ("is_authenticated", "display_name", "identity"):
        E("objects", "base", [n], "not implemented")
    E("objects", "backend", [], "not implemented")
    for h, p in (("h", 1), ("::1", 443)):
        E("objects", "address", [h, p], [h, p, h, p, h, p, True])
    for v in ("password", "", "it's"):
        E("objects", "secret", [v], [v, "Secret('**********')", bool(v), v, v])
    for given, items in (("a,b", ["a", "b"]), ("a", ["a"]), ("", []), (" a , b c ,d", ["a", "b c", "d"]), ('"a, b",c', ["a, b", "c"]), ("'x',\"y z\"", ["x", "y z"]), ("a.b,*.c", ["a.b", "*.c"]), (["x", "y, z", " w "], ["x", "y, z", " w "]), ([], [])):
        for tup in ((False, True) if isinstance(given, list) else (False,)):
            E("objects", "comma", [given, tup], [items, len(items), items, items[-1] if items else None, items[:1], ", ".join(map(repr, items)), f"CommaSeparatedStrings({items!r})", [True] * len(items), False])
    for args, kw in (([], {}), (["a"], {"b": 1}), ([1, 2], {})):
        E("objects", "middleware", [args, kw], [True, args, kw, True, args, kw, f"Middleware({', '.join(['Some', *map(repr, args), *(f'{k}={v!r}' for k, v in kw.items())])})"])
    A, K = ["a", 1], {"k": "v"}
    for n in ("plain", "coro"):
        E("tasks", "one_task", [n, A, K], [0, [[n, A, K]], None])
        E("tasks", "one_task", [n, [], {}], [0, [[n, [], {}]], None])
    E("tasks", "one_task", ["slow", [], {}], [0, [["slow starts", [], {}], ["slow ends"]], None])
    E("tasks", "one_task", ["fails", A, K], [0, [["fails", A, K]], "raised"])
    P, S_, F, M, Co = ("plain", A, {}), ("slow", [], K), ("fails", [], {}), ("more", [], {}), ("coro", [2], K)
    log = lambda t: {"slow": [["slow starts", t[1], t[2]], ["slow ends"]]}.get(t[0], [[t[0], t[1], t[2]]])
    for given, added in ((None, []), ([], []), ([P], []), (None, [P]), ([P, Co], [S_, P]), (None, [S_, Co, P]), ([S_, S_], []), (None, [P, F, Co]), ([F], [P]), (None, [M, Co]), ([M], [])):
        want, result = [], None
        queue = list(given or []) + list(added)
        while queue:
            t = queue.pop(0)
            want += log(t)
            if t[0] == "fails":
                result = "raised"
                break
            if t[0] == "more":
                queue.append(("plain", ["added"], {}))
        E("tasks", "tasks", [given, added], [0, want, result, None if given is None else len(given)])
    c1, c2, s1, s2, n1, n2 = ("coro", {"n": 1}), ("coro", {"k": "v", "n": 2}), ("slow", {"n": 1}), ("slow", {"n": 2}), ("never", {"n": 1}), ("never", {"n": 2})
    for given in ([c1], [c1, c2], [s1], [s1, c2], [c1, n2], [n1, c2], [n1, s2], [n1, n2, c1], [c2, n1, n2], [n1, n2, c1, c2]):
        for order in permutations(range(len(given))):
            log, done = [], False
            for i in order:
                name, kw = given[i]
                if done:
                    break
                log += [["slow starts", [], kw], ["slow ends"]] if name == "slow" else [[name, [], kw]]
                done = name != "never"
            what = f"run_until_first_complete({given}), tasks get to run in the order {order}"
            eng, s, r = j.play(what, "race", given, order=order)
            ctx.oblige("race")
            if r is not None:
                j.eq("race", eng, s, what, r, [log, None])
            elif s is not None and s.mon.get("hang"):
                eng.report("race", "race", s, f"{what}: one is done but the call waits for the others")
    ctx.need("constant", 76)
    ctx.need("play", 120)
    ctx.need("race", 30)
