R = "responses.py"
BAD = [
    ("no final", R, '''        await send({"type": "http.response.body", "body": b"", "more_body": False})

    async def __call__''', '''        if self.raw_headers:
            await send({"type": "http.response.body", "body": b"", "more_body": False})

    async def __call__'''),
    ("lt chunk", R, "more_body = len(chunk) == self.chunk_size\n", "more_body = len(chunk) == self.chunk_size\n                    if not chunk:\n                        break\n"),
    ("bg before", R, '''        await send({"type": prefix + "http.response.body", "body": self.body})

        if self.background is not None:
            await self.background()''', '''        if self.background is not None:
            await self.background()
        await send({"type": prefix + "http.response.body", "body": self.body})
'''),
    ("bg skipped head", R, "            await self._handle_simple(send, send_header_only)\n", "            return await self._handle_simple(send, send_header_only)\n"),
    ("base stream no final", "middleware/base.py", '''        await send({"type": "http.response.body", "body": b"", "more_body": False})

        if self.background:''', '''        if self.info is None:
            await send({"type": "http.response.body", "body": b"", "more_body": False})

        if self.background:'''),
    ("head multi two finals", R, '        if send_header_only:\n            await send({"type": "http.response.body", "body": b"", "more_body": False})\n        else:\n            async with await anyio.open_file(self.path, mode="rb") as file:\n                for start, end in ranges:', '        if send_header_only:\n            await send({"type": "http.response.body", "body": b"", "more_body": False})\n        if True:\n            async with await anyio.open_file(self.path, mode="rb") as file:\n                for start, end in ranges:'),
    ("newline final", R, '''await send({"type": "http.response.body", "body": b"\\n", "more_body": True})''', '''await send({"type": "http.response.body", "body": b"\\n", "more_body": end < file_size})'''),
    ("stream bg on error", R, '''            except OSError:
                raise ClientDisconnect()
''', '''            except OSError:
                pass
'''),
    ("template debug after", "templating.py", "        await super().__call__(scope, receive, send)", "        await super().__call__(scope, receive, send)\n        if self.background is not None:\n            await self.background()"),
]
GOOD = [
    ("helper", R, '''        await send({"type": prefix + "http.response.body", "body": self.body})

        if self.background is not None:
            await self.background()''', '''        await self._finish(send, prefix)

    async def _finish(self, send, prefix):
        message = {"type": f"{prefix}http.response.body"}
        message["body"] = self.body
        await send(message)
        background = self.background
        if background is None:
            return
        await background()'''),
    ("loop", R, '''                more_body = True
                while more_body:
                    chunk = await file.read(self.chunk_size)
                    more_body = len(chunk) == self.chunk_size
                    await send({"type": "http.response.body", "body": chunk, "more_body": more_body})''', '''                while True:
                    chunk = await file.read(self.chunk_size)
                    last = len(chunk) < self.chunk_size
                    await send({"type": "http.response.body", "body": chunk, "more_body": not last})
                    if last:
                        break'''),
]
