R = "responses.py"
BAD = [
    ("max age truthy", R, "if max_age is not None:", "if max_age:"),
    ("expires truthy", R, "if expires is not None:", "if expires:"),
    ("expires not gmt", R, "format_datetime(expires, usegmt=True)", "format_datetime(expires)"),
    ("no datetime", R, "if isinstance(expires, datetime):", "if False:"),
    ("path dropped", R, "        if path is not None:\n            cookie[key][\"path\"] = path\n", ""),
    ("path forced", R, "        if path is not None:\n            cookie[key][\"path\"] = path\n", "        cookie[key][\"path\"] = path or \"/\"\n"),
    ("domain as path", R, 'cookie[key]["domain"] = domain', 'cookie[key]["domain"] = path'),
    ("secure httponly", R, "        if httponly:\n            cookie[key][\"httponly\"]", "        if secure:\n            cookie[key][\"httponly\"]"),
    ("secure from samesite", R, "        if secure:\n", "        if secure or samesite == \"none\":\n"),
    ("samesite unchecked", R, '            assert samesite.lower() in [\n                "strict",\n                "lax",\n                "none",\n            ], "samesite must be either \'strict\', \'lax\' or \'none\'"\n', ""),
    ("samesite default", R, 'samesite: typing.Literal["lax", "strict", "none"] | None = "lax",\n    ) -> None:\n        cookie:', 'samesite: typing.Literal["lax", "strict", "none"] | None = None,\n    ) -> None:\n        cookie:'),
    ("httponly default", R, "        httponly: bool = False,\n        samesite: typing.Literal[\"lax\", \"strict\", \"none\"] | None = \"lax\",\n    ) -> None:\n        cookie:", "        httponly: bool = True,\n        samesite: typing.Literal[\"lax\", \"strict\", \"none\"] | None = \"lax\",\n    ) -> None:\n        cookie:"),
    ("delete path", R, "            expires=0,\n            path=path,\n", "            expires=0,\n"),
    ("delete domain", R, "            domain=domain,\n            secure=secure,", "            secure=secure,"),
    ("delete secure", R, "            domain=domain,\n            secure=secure,\n            httponly=httponly,", "            domain=domain,\n            httponly=httponly,"),
    ("delete samesite", R, "            httponly=httponly,\n            samesite=samesite,\n        )", "            httponly=httponly,\n        )"),
    ("delete max age", R, "            max_age=0,\n", ""),
    ("delete expires", R, "            expires=0,\n", ""),
    ("header set not add", R, 'self.raw_headers.append((b"set-cookie", cookie_val.encode("latin-1")))', 'self.headers["set-cookie"] = cookie_val'),
    ("header lost", R, 'self.raw_headers.append((b"set-cookie", cookie_val.encode("latin-1")))', 'self.raw_headers = [(b"set-cookie", cookie_val.encode("latin-1"))]'),
    ("shared jar", R, [" = http.cookies.SimpleCookie()\n", "class Response:\n"], [" = self._jar\n", "class Response:\n    _jar: http.cookies.BaseCookie[str] = http.cookies.SimpleCookie()\n"]),
    ("domain lost on secure", R, "        if domain is not None:", "        if domain is not None and not secure:"),
]
GOOD = [
    ("headers append", R, 'self.raw_headers.append((b"set-cookie", cookie_val.encode("latin-1")))', 'self.headers.append("set-cookie", cookie_val)'),
    ("morsel", R, "        cookie[key] = value\n", "        cookie[key] = value\n        morsel = cookie[key]\n"),
    ("morsel used", R, ["        cookie[key] = value\n", 'cookie[key]["path"] = path', 'cookie[key]["domain"] = domain'], ["        cookie[key] = value\n        morsel = cookie[key]\n", 'morsel["path"] = path', 'morsel["domain"] = domain']),
    ("loop", R, """        if secure:
            cookie[key]["secure"] = True
        if httponly:
            cookie[key]["httponly"] = True
""", """        for flag, on in (("secure", secure), ("httponly", httponly)):
            if on:
                cookie[key][flag] = True
"""),
    ("dict loop", R, """        if path is not None:
            cookie[key]["path"] = path
        if domain is not None:
            cookie[key]["domain"] = domain
""", """        for name, attr in {"path": path, "domain": domain}.items():
            if attr is not None:
                cookie[key][name] = attr
"""),
    ("expires local", R, """            if isinstance(expires, datetime):
                cookie[key]["expires"] = format_datetime(expires, usegmt=True)
            else:
                cookie[key]["expires"] = expires
""", """            cookie[key]["expires"] = format_datetime(expires, usegmt=True) if isinstance(expires, datetime) else expires
"""),
    ("samesite raise", R, '            assert samesite.lower() in [\n                "strict",\n                "lax",\n                "none",\n            ], "samesite must be either \'strict\', \'lax\' or \'none\'"\n', '            if samesite.lower() not in ("strict", "lax", "none"):\n                raise AssertionError("bad samesite")\n'),
    ("output header", R, 'cookie.output(header="").strip()', 'cookie[key].OutputString()'),
    ("path truthy", R, "if path is not None:", "if path:"),
]
