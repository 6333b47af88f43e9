RO, RE, RS, UT, CO, DS, TE, GZ, WS, MW, SC, FP = ("routing.py", "requests.py", "responses.py", "_utils.py", "concurrency.py", "datastructures.py", "templating.py", "middleware/gzip.py", "websockets.py", "middleware/__init__.py", "schemas.py", "formparsers.py")
BAD = [
    ("zip-strict", RO, "        partial = None\n", "        partial = None\n        pairs = list(zip(self.routes, self.routes, strict=True))\n"),
    ("match-statement", GZ, "        self.app = app\n", "        self.app = app\n        match minimum_size:\n            case 0:\n                pass\n"),
    ("runtime-union", DS, "class Secret:\n", "Text = str | bytes\n\n\nclass Secret:\n"),
    ("isinstance-union", DS, "isinstance(other, URL)", "isinstance(other, (URL | str))") if False else ("isinstance-union", RS, "class PlainTextResponse(Response):\n", "def _textual(x: typing.Any) -> bool:\n    return isinstance(x, str | bytes)\n\n\nclass PlainTextResponse(Response):\n"),
    ("fstring-quotes", RO, "class Match(Enum):", "def _label(d: dict[str, str]) -> str:\n    return f\"route {d[\"name\"]}\"\n\n\nclass Match(Enum):"),
    ("type-checking-only", RS, "from starlette.background import BackgroundTask\n", "if typing.TYPE_CHECKING:\n    from starlette.background import BackgroundTask\n\n\ndef _bg() -> typing.Any:\n    return BackgroundTask\n\n\n"),
    ("typing-extensions", MW, "if sys.version_info >= (3, 10):  # pragma: no cover\n    from typing import ParamSpec\nelse:  # pragma: no cover\n    from typing_extensions import ParamSpec\n", "from typing_extensions import ParamSpec\n"),
    ("param-spec", CO, "if sys.version_info >= (3, 10):  # pragma: no cover\n    from typing import ParamSpec\nelse:  # pragma: no cover\n    from typing_extensions import ParamSpec\n", "from typing import ParamSpec\n"),
    ("circular", DS, "from starlette.types import Scope\n", "from starlette.requests import HTTPConnection\nfrom starlette.types import Scope\n"),
    ("circular-routing", "background.py", "from starlette.concurrency import run_in_threadpool\n", "from starlette.concurrency import run_in_threadpool\nfrom starlette.responses import Response\n"),
    ("jinja-unguarded", TE, "try:\n    import jinja2\n", "import jinja2\n\ntry:\n    import jinja2\n"),
    ("yaml-reraise", SC, "    yaml = None  # type: ignore[assignment]\n", "    raise\n"),
    ("sessions-everywhere", "applications.py", "from starlette.middleware.errors import ServerErrorMiddleware\n", "from starlette.middleware.errors import ServerErrorMiddleware\nfrom starlette.middleware.sessions import SessionMiddleware\n"),
    ("aclosing", RO, "import contextlib\n", "import contextlib\nfrom contextlib import aclosing\n"),
    ("timeout", "middleware/base.py", "import anyio\n", "import asyncio\nimport anyio\n\nlimit = asyncio.timeout\n"),
    ("cgi", FP, "import typing\n", "import cgi\nimport typing\n"),
    ("tomllib", "config.py", "import os\n", "import os\nimport tomllib\n"),
    ("exception-group", UT, "has_exceptiongroups = True\n", "has_exceptiongroups = True\nGroup = ExceptionGroup\n"),
    ("dependency", WS, "import json\n", "import json\nimport wsproto\n"),
    ("local-dependency", WS, "        self.client_state = WebSocketState.CONNECTING\n", "        import wsproto\n        self.client_state = WebSocketState.CONNECTING\n"),
    ("undefined-name", "middleware/wsgi.py", "import sys\n", ""),
    ("slots", "datastructures.py", "class State:", "import dataclasses\n\n@dataclasses.dataclass(slots=True)\nclass _P:\n    x: int\n\n\nclass State:"),
    ("hash-file", "staticfiles.py", "class NotModifiedResponse", "def _digest(f: typing.Any) -> typing.Any:\n    import hashlib\n    return hashlib.file_digest(f, \"md5\")\n\n\nclass NotModifiedResponse"),
    ("used-before", RS, "class PlainTextResponse(Response):", "class Early(PlainTextResponse):\n    pass\n\n\nclass PlainTextResponse(Response):"),
    ("path-walk", "staticfiles.py", "        self.directory = directory\n", "        import pathlib\n        _ = pathlib.Path(\".\").walk\n        self.directory = directory\n"),
]
GOOD = [
    ("guarded-zip", RO, "        partial = None\n", "        partial = None\n        import sys\n        if sys.version_info >= (3, 10):\n            pairs = list(zip(self.routes, self.routes, strict=True))\n"),
    ("try-aclosing", RO, "import contextlib\n", "import contextlib\ntry:\n    from contextlib import aclosing\nexcept ImportError:\n    aclosing = None\n"),
    ("local-optional", SC, "        assert yaml is not None,", "        import yaml\n        assert yaml is not None,"),
    ("import-order", RS, "from starlette.background import BackgroundTask\n", "import starlette.background\nfrom starlette.background import BackgroundTask\n"),
    ("late-circular", "background.py", "class BackgroundTask:\n", "def _late() -> typing.Any:\n    from starlette.responses import Response\n    return Response\n\n\nclass BackgroundTask:\n"),
    ("removeprefix", "staticfiles.py", "class NotModifiedResponse", "def _p(x: str) -> str:\n    return x.removeprefix(\"W/\")\n\n\nclass NotModifiedResponse"),
    ("fstring", RO, "class Match(Enum):", "def _label(d: dict[str, str]) -> str:\n    return f\"route {d['name']!r:>{10}}\"\n\n\nclass Match(Enum):"),
    ("type-error", RO, "        partial = None\n", "        partial = None\n        x: int = \"text\"\n"),
    ("own-exceptiongroup", UT, "except ImportError:", "except ModuleNotFoundError:"),
    ("module-import", RE, "from starlette.exceptions import HTTPException\n", "from starlette import exceptions\nfrom starlette.exceptions import HTTPException\n"),
]
