R = "responses.py"
BAD = [
    ("if-range ignored", R, "or (http_if_range is not None and not self._should_use_range(http_if_range))", ""),
    ("if-range etag only", R, 'return http_if_range == self.headers["last-modified"] or http_if_range == self.headers["etag"]', 'return http_if_range == self.headers["last-modified"]'),
    ("if-range absent required", R, "http_if_range is not None and not self", "http_if_range is None or not self"),
    ("mutates headers", R, "headers = self.headers.mutablecopy()\n        headers[\"content-range\"] = f\"bytes", "headers = self.headers\n        headers[\"content-range\"] = f\"bytes"),
    ("mutates headers multi", R, "headers = self.headers.mutablecopy()\n        headers[\"content-range\"] = f\"multi", "headers = self.headers\n        headers[\"content-range\"] = f\"multi"),
    ("end inclusive", R, 'f"bytes {start}-{end - 1}/{file_size}"', 'f"bytes {start}-{end}/{file_size}"'),
    ("length off", R, 'headers["content-length"] = str(end - start)', 'headers["content-length"] = str(end - start - 1)'),
    ("no length", R, '        headers["content-length"] = str(end - start)\n', ""),
    ("no seek", R, "                await file.seek(start)\n                more_body = True\n", "                more_body = True\n"),
    ("read too much", R, "chunk = await file.read(min(self.chunk_size, end - start))\n                    start += len(chunk)\n                    more_body", "chunk = await file.read(self.chunk_size)\n                    start += len(chunk)\n                    more_body"),
    ("multi read too much", R, "chunk = await file.read(min(self.chunk_size, end - start))\n                        if", "chunk = await file.read(self.chunk_size)\n                        if"),
    ("multi seek once", R, "                    await file.seek(start)\n                    while", "                    while"),
    ("merge strict", R, "if result and start <= result[-1][1]:", "if result and start < result[-1][1] - 1:"),
    ("merge loses end", R, "max(end, result[-1][1])", "end"),
    ("unsorted", R, "for start, end in sorted(ranges):", "for start, end in ranges:"),
    ("416 at size", R, "if any(not (0 <= start < file_size) for start, _ in ranges):", "if any(not (0 <= start <= file_size) for start, _ in ranges):"),
    ("416 first only", R, "if any(not (0 <= start < file_size) for start, _ in ranges):", "if not ranges[0][0] < file_size:"),
    ("suffix negative", R, "max(file_size - int(last), 0)", "file_size - int(last)"),
    ("end clamp", R, "int(last) < file_size else file_size", "int(last) <= file_size else file_size"),
    ("inverted ok", R, "        if any(start >= end for start, end in ranges):\n            raise MalformedRangeHeader(\"Range header: start must be less than end\")\n", ""),
    ("unit case", R, "units = units.strip().lower()", "units = units.strip()"),
    ("any unit", R, '        if units != "bytes":\n            raise MalformedRangeHeader("Only support bytes range")\n', ""),
    ("416 as 400", R, 'PlainTextResponse(status_code=416, headers={"Content-Range": f"*/{exc.max_size}"})', 'PlainTextResponse(status_code=400, headers={"Content-Range": f"*/{exc.max_size}"})'),
    ("416 size", R, "raise RangeNotSatisfiable(file_size)", "raise RangeNotSatisfiable(file_size - 1)"),
    ("status", R, "            or self.status_code != 200\n", ""),
    ("simple chunk", R, "more_body = len(chunk) == self.chunk_size\n", "more_body = len(chunk) > self.chunk_size\n"),
    ("head range body", R, '''        if send_header_only:
            await send({"type": "http.response.body", "body": b"", "more_body": False})
        else:
            async with await anyio.open_file(self.path, mode="rb") as file:
                await file.seek(start)''', '''        if False:
            await send({"type": "http.response.body", "body": b"", "more_body": False})
        else:
            async with await anyio.open_file(self.path, mode="rb") as file:
                await file.seek(start)'''),
    ("part range", R, "Content-Range: bytes {start}-{end - 1}/{max_size}\\n\\n\"\n", "Content-Range: bytes {start}-{end}/{max_size}\\n\\n\"\n"),
    ("length per part", R, "static_header_part_len = 44 +", "static_header_part_len = 43 +"),
    ("no eof check", R, "                        if not chunk:\n                            # The file is shorter than it was when the response started.\n                            break\n", ""),
    ("200 for range", R, 'await send({"type": "http.response.start", "status": 206, "headers": headers.raw})\n        if send_header_only:\n            await send({"type": "http.response.body", "body": b"", "more_body": False})\n        else:\n            async with await anyio.open_file(self.path, mode="rb") as file:\n                for', 'await send({"type": "http.response.start", "status": 200, "headers": headers.raw})\n        if send_header_only:\n            await send({"type": "http.response.body", "body": b"", "more_body": False})\n        else:\n            async with await anyio.open_file(self.path, mode="rb") as file:\n                for'),
    ("single for many", R, "if len(ranges) == 1:\n                    start", "if len(ranges) >= 1:\n                    start"),
    ("size of stat", R, "content_length = str(stat_result.st_size)", "content_length = str(stat_result.st_blocks)"),
    ("stat headers forced in given", R, "        if stat_result is not None:\n            self.set_stat_headers(stat_result)\n", ""),
]
GOOD = [
    ("remaining counter", R, """                await file.seek(start)
                more_body = True
                while more_body:
                    chunk = await file.read(min(self.chunk_size, end - start))
                    start += len(chunk)
                    more_body = len(chunk) == self.chunk_size and start < end
""", """                await file.seek(start)
                remaining = end - start
                more_body = True
                while more_body:
                    chunk = await file.read(min(remaining, self.chunk_size))
                    remaining -= len(chunk)
                    more_body = remaining > 0 and len(chunk) > 0
"""),
    ("sort first", R, "for start, end in sorted(ranges):", "ranges.sort()\n        for start, end in ranges:"),
    ("parse with regex", R, """            first, dash, last = (value.strip() for value in part.partition("-"))
            if not dash or not (first + last).isdecimal():
                continue
""", """            if "-" not in part:
                continue
            first, last = [value.strip() for value in part.split("-", 1)]
            if not (first or last) or not (first + last).isdigit():
                continue
"""),
    ("any via loop", R, """        if any(not (0 <= start < file_size) for start, _ in ranges):
            raise RangeNotSatisfiable(file_size)
""", """        for start, _ in ranges:
            if start >= file_size:
                raise RangeNotSatisfiable(file_size)
"""),
    ("in tuple", R, 'return http_if_range == self.headers["last-modified"] or http_if_range == self.headers["etag"]', 'return http_if_range in (self.headers["etag"], self.headers["last-modified"])'),
    ("crlf-free helper", R, """        headers = self.headers.mutablecopy()
        headers["content-range"] = f"bytes {start}-{end - 1}/{file_size}"
        headers["content-length"] = str(end - start)
""", """        headers = MutableHeaders(raw=list(self.raw_headers))
        headers["content-length"] = str(end - start)
        headers["content-range"] = "bytes %d-%d/%d" % (start, end - 1, file_size)
"""),
    ("length with loop", R, """        content_length = sum(
            (len(str(start)) + len(str(end - 1)) + static_header_part_len)  # Headers
            + (end - start)  # Content
            for start, end in ranges
        ) + (
            5 + boundary_len  # --boundary--\\n
        )
""", """        content_length = 5 + boundary_len
        for start, end in ranges:
            content_length += len(str(start)) + len(str(end - 1)) + static_header_part_len + end - start
"""),
    ("early return", R, """        if (
            http_range is None
            or self.status_code != 200
            or (http_if_range is not None and not self._should_use_range(http_if_range))
        ):
            await self._handle_simple(send, send_header_only)
        else:
""", """        use_range = http_range is not None and self.status_code == 200
        if use_range and http_if_range is not None:
            use_range = self._should_use_range(http_if_range)
        if not use_range:
            await self._handle_simple(send, send_header_only)
        else:
"""),
]
BAD.append(("multi length digits", "responses.py", "len(str(end - 1)) + static", "len(str(end + 1)) + static"))
BAD += [
    ("merge first a", "responses.py", "result[-1] = (result[-1][0], max(end, result[-1][1]))", "result[0] = (result[-1][0], max(end, result[-1][1]))"),
    ("merge first b", "responses.py", "result[-1] = (result[-1][0], max(end, result[-1][1]))", "result[-1] = (result[0][0], max(end, result[-1][1]))"),
    ("merge first c", "responses.py", "result[-1] = (result[-1][0], max(end, result[-1][1]))", "result[-1] = (result[-1][0], max(end, result[0][1]))"),
    ("merge first d", "responses.py", "if result and start <= result[-1][1]:", "if result and start <= result[0][1]:"),
]
