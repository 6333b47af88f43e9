R = "responses.py"
D = "datastructures.py"
BAD = [
    ('file-etag-override', 'responses.py', '        self.headers.setdefault("etag", etag)', '        self.headers["etag"] = etag'),
    ('file-disp-always', 'responses.py', 'self.headers.setdefault("content-disposition", content_disposition)', 'self.headers["content-disposition"] = content_disposition'),
    ('file-etag-size', 'responses.py', 'str(stat_result.st_mtime) + "-" + str(stat_result.st_size)', 'str(stat_result.st_mtime)'),
    ('file-etag-int', 'responses.py', 'str(stat_result.st_mtime) + "-" + str(stat_result.st_size)', 'str(stat_result.st_size)'),
    ('file-quote-safe', 'responses.py', 'content_disposition_filename = quote(self.filename)', 'content_disposition_filename = quote(self.filename, safe="/;=\\"")'),
    ('file-guess-path', 'responses.py', 'guess_type(filename or path)[0]', 'guess_type(path)[0]'),
    ('file-date-local', 'responses.py', 'formatdate(stat_result.st_mtime, usegmt=True)', 'formatdate(stat_result.st_mtime)'),
    ('file-disp-type', 'responses.py', 'filename*=utf-8\'\'{content_disposition_filename}"', 'filename*=utf-8\'\'{content_disposition_filename}".replace(\'inline\', \'attachment\')'),
    ("length chars", R, "content_length = str(len(body))", "content_length = str(len(body.decode()))"),
    ("204 length", R, "self.status_code in (204, 304)", "self.status_code in (304,)"),
    ("304 length", R, "self.status_code in (204, 304)", "self.status_code in (204, 205)"),
    ("1xx length", R, "self.status_code < 200 or ", "self.status_code == 100 or "),
    ("no length for empty", R, "            body is not None\n            and populate", "            body\n            and populate"),
    ("length override", R, 'populate_content_length = b"content-length" not in keys', 'populate_content_length = True'),
    ("type override", R, 'populate_content_type = b"content-type" not in keys', 'populate_content_type = True'),
    ("case sensitive", R, "(k.lower().encode(\"latin-1\"), v.encode(\"latin-1\")) for k", "(k.encode(\"latin-1\"), v.encode(\"latin-1\")) for k"),
    ("utf8 header", R, "(k.lower().encode(\"latin-1\"), v.encode(\"latin-1\")) for k", "(k.lower().encode(\"latin-1\"), v.encode(\"utf-8\")) for k"),
    ("charset constant", R, 'content_type += "; charset=" + self.charset', 'content_type += "; charset=utf-8"'),
    ("charset twice", R, 'if content_type.startswith("text/") and "charset=" not in content_type.lower():', 'if content_type.startswith("text/"):'),
    ("charset case", R, '"charset=" not in content_type.lower():', '"charset=" not in content_type:'),
    ("charset everywhere", R, 'if content_type.startswith("text/") and "charset=" not in', 'if "charset=" not in'),
    ("utf8 body", R, "return content.encode(self.charset)", "return content.encode()"),
    ("json nan", R, "allow_nan=False", "allow_nan=True"),
    ("json spaces", R, '            separators=(",", ":"),\n', ""),
    ("json ascii", R, "ensure_ascii=False", "ensure_ascii=True"),
    ("json latin", R, ').encode("utf-8")\n\n\nclass Redirect', ').encode("latin-1")\n\n\nclass Redirect'),
    ("redirect body", R, 'super().__init__(content=b"", status', 'super().__init__(content=str(url), status'),
    ("redirect unquoted", R, "quote(str(url), safe=\":/%#?=@[]!$&'()*+,;\")", "str(url)"),
    ("redirect headers lost", R, 'content=b"", status_code=status_code, headers=headers,', 'content=b"", status_code=status_code,'),
    ("media ignored", R, "        if media_type is not None:\n            self.media_type = media_type\n        self.background = background\n        self.body", "        self.background = background\n        self.body"),
    ("headers copy", R, "self._headers = MutableHeaders(raw=self.raw_headers)", "self._headers = MutableHeaders(raw=list(self.raw_headers))"),
    ("headers class cache", R, "            self._headers = MutableHeaders(raw=self.raw_headers)", "            Response._headers = MutableHeaders(raw=self.raw_headers)"),
    ("shared raw", R, "            raw_headers: list[tuple[bytes, bytes]] = []\n", "            raw_headers: list[tuple[bytes, bytes]] = _NO_HEADERS\n"),
    ("cookie replaces list", R, 'self.raw_headers.append((b"set-cookie", cookie_val.encode("latin-1")))', 'self.raw_headers = [*self.raw_headers, (b"set-cookie", cookie_val.encode("latin-1"))]'),
    ("none body", R, '            return b""\n        if isinstance', '            return b"null"\n        if isinstance'),
    ("streaming length", R, "        self.init_headers(headers)\n\n    async def listen_for", "        self.body = b\"\"\n        self.init_headers(headers)\n\n    async def listen_for"),
    ("streaming media lost", R, "self.media_type = self.media_type if media_type is None else media_type", "self.media_type = media_type"),
]
GOOD = [
    ('file-sha', 'responses.py', 'hashlib.md5(etag_base.encode(), usedforsecurity=False)', 'hashlib.sha1(etag_base.encode(), usedforsecurity=False)'),
    ('file-fstr', 'responses.py', 'str(stat_result.st_mtime) + "-" + str(stat_result.st_size)', 'f"{stat_result.st_mtime}-{stat_result.st_size}"'),
    ('file-not-in', 'responses.py', '        self.headers.setdefault("etag", etag)', '        if "etag" not in self.headers:\n            self.headers["etag"] = etag'),
    ("range test", R, "not (self.status_code < 200 or self.status_code in (204, 304))", "self.status_code >= 200 and self.status_code != 204 and self.status_code != 304"),
    ("loop headers", R, """            raw_headers = [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers.items()]
            keys = [h[0] for h in raw_headers]
""", """            raw_headers = []
            for name, value in headers.items():
                raw_headers.append((name.lower().encode("latin-1"), value.encode("latin-1")))
            keys = {name for name, _ in raw_headers}
"""),
    ("fstring charset", R, 'content_type += "; charset=" + self.charset', 'content_type = f"{content_type}; charset={self.charset}"'),
    ("render else", R, """        if isinstance(content, (bytes, memoryview)):
            return content
        return content.encode(self.charset)  # type: ignore""", """        if not isinstance(content, (bytes, memoryview)):
            content = content.encode(self.charset)
        return content"""),
    ("length before", R, """            content_length = str(len(body))
            raw_headers.append((b"content-length", content_length.encode("latin-1")))
""", """            raw_headers.append((b"content-length", str(len(body)).encode("ascii")))
"""),
    ("headers none", R, "        if headers is None:\n            raw_headers: list[tuple[bytes, bytes]] = []\n            populate_content_length = True\n            populate_content_type = True\n        else:\n            raw_headers", "        raw_headers: list[tuple[bytes, bytes]] = []\n        populate_content_length = populate_content_type = True\n        if headers:\n            raw_headers"),
    ("headers try", R, """        if not hasattr(self, "_headers"):
            self._headers = MutableHeaders(raw=self.raw_headers)
        return self._headers""", """        return MutableHeaders(raw=self.raw_headers)"""),
]
