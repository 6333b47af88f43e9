F = "middleware/gzip.py"
BAD = [
    ("no-truncate", F, "        self.gzip_buffer.truncate()\n", ""),
    ("no-seek", F, "        self.gzip_buffer.seek(0)\n", ""),
    ("no-close", F, "        if not more_body:\n            self.gzip_file.close()\n", ""),
    ("close-early", F, "        if not more_body:\n            self.gzip_file.close()", "        self.gzip_file.close()"),
    ("keep-content-length", F, "                    del headers[\"Content-Length\"]\n", ""),
    ("stream-content-length", F, "                    del headers[\"Content-Length\"]\n", "                    headers[\"Content-Length\"] = str(len(body))\n"),
    ("whole-content-length-orig", F, 'headers["Content-Length"] = str(len(body))', 'headers["Content-Length"] = str(len(message["body"]))'),
    ("no-vary", F, "                headers = MutableHeaders(scope=self.initial_message)\n                headers.add_vary_header(\"Accept-Encoding\")\n                if body != message.get(\"body\", b\"\"):\n                    headers[\"Content-Encoding\"] = self.content_encoding\n                    del", "                headers = MutableHeaders(scope=self.initial_message)\n                if body != message.get(\"body\", b\"\"):\n                    headers[\"Content-Encoding\"] = self.content_encoding\n                    del"),
    ("vary-overwrite", F, 'headers.add_vary_header("Accept-Encoding")\n                if body != message.get("body", b""):\n                    headers["Content-Encoding"] = self.content_encoding\n                    headers["Content-Length"]', 'headers["Vary"] = "Accept-Encoding"\n                if body != message.get("body", b""):\n                    headers["Content-Encoding"] = self.content_encoding\n                    headers["Content-Length"]'),
    ("size-le", F, "if len(body) < self.minimum_size and not more_body", "if len(body) <= self.minimum_size and not more_body"),
    ("size-ignored", F, "if len(body) < self.minimum_size and not more_body", "if not body and not more_body"),
    ("stream-min-size", F, "if len(body) < self.minimum_size and not more_body:", "if len(body) < self.minimum_size:"),
    ("event-stream-compressed", F, "(self.content_encoding_set or self.content_type_is_excluded)", "self.content_encoding_set"),
    ("encoded-twice", F, "(self.content_encoding_set or self.content_type_is_excluded)", "self.content_type_is_excluded"),
    ("passthrough-start-again", F, "            if not self.started:\n                self.started = True\n                await self.send(self.initial_message)\n            await self.send(message)\n        elif message_type == \"http.response.body\" and not self.started:", "            await self.send(self.initial_message)\n            await self.send(message)\n        elif message_type == \"http.response.body\" and not self.started:"),
    ("level-default", F, "self.gzip_file = gzip.GzipFile(mode=\"wb\", fileobj=self.gzip_buffer, compresslevel=compresslevel)", "self.gzip_file = gzip.GzipFile(mode=\"wb\", fileobj=self.gzip_buffer)"),
    ("more-body-lost", F, '            message["body"] = self.apply_compression(body, more_body=more_body)\n\n            await self.send(message)', '            await self.send({"type": "http.response.body", "body": self.apply_compression(body, more_body=more_body)})'),
    ("no-accept-check", F, 'if "gzip" in headers.get("Accept-Encoding", ""):', 'if "Accept-Encoding" in headers:'),
    ("accept-default-gzip", F, 'headers.get("Accept-Encoding", "")', 'headers.get("Accept-Encoding", "gzip")'),
    ("last-body-uncompressed", F, '            message["body"] = self.apply_compression(body, more_body=more_body)', '            message["body"] = self.apply_compression(body, more_body=more_body) if body else b""'),
    ("body-key", F, '            body = message.get("body", b"")\n            more_body = message.get("more_body", False)\n\n            message["body"]', '            body = message["body"]\n            more_body = message.get("more_body", False)\n\n            message["body"]'),
    ("ext-dropped", F, "                await self.send(self.initial_message)\n            await self.send(message)\n\n    def", "                await self.send(self.initial_message)\n                await self.send(message)\n\n    def"),
    ("encoding-without-body", F, '                    headers["Content-Length"] = str(len(body))\n                    message["body"] = body', '                    headers["Content-Length"] = str(len(body))'),
    ("shared-stream", F, [
        "        self.compresslevel = compresslevel\n",
        "responder = GZipResponder(self.app, self.minimum_size, compresslevel=self.compresslevel)",
    ], [
        "        self.compresslevel = compresslevel\n        self.responder = GZipResponder(app, minimum_size, compresslevel=compresslevel)\n",
        "responder = self.responder",
    ]),
    ("write-twice", F, "        self.gzip_file.write(body)\n", "        self.gzip_file.write(body)\n        if not more_body and not body:\n            self.gzip_file.write(body + b'\\n')\n"),
    ("start-header-list-new", F, 'headers = Headers(raw=self.initial_message.setdefault("headers", []))', 'headers = Headers(raw=list(self.initial_message.get("headers", [])))'),
]
GOOD = [
    ("read-instead", F, "        body = self.gzip_buffer.getvalue()\n", "        self.gzip_buffer.seek(0)\n        body = self.gzip_buffer.read()\n"),
    ("truncate-first", F, "        self.gzip_buffer.seek(0)\n        self.gzip_buffer.truncate()\n", "        self.gzip_buffer.truncate(0)\n        self.gzip_buffer.seek(0)\n"),
    ("list-accept", F, 'if "gzip" in headers.get("Accept-Encoding", ""):', 'accept = headers.get("Accept-Encoding", "")\n        if "gzip" in accept:'),
    ("helper", F, '                    headers["Content-Encoding"] = self.content_encoding\n                    headers["Content-Length"] = str(len(body))\n', '                    headers["Content-Length"] = str(len(body))\n                    headers["Content-Encoding"] = self.content_encoding\n'),
    ("reorder", F, "            if len(body) < self.minimum_size and not more_body:", "            if not more_body and not len(body) >= self.minimum_size:"),
    ("merged-flag", F, "(self.content_encoding_set or self.content_type_is_excluded)", "any((self.content_encoding_set, self.content_type_is_excluded))"),
    ("local-send", F, '            message["body"] = self.apply_compression(body, more_body=more_body)\n\n            await self.send(message)', '            compressed = self.apply_compression(body, more_body=more_body)\n            await self.send({**message, "body": compressed})'),
]
